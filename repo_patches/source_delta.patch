From 19f730f5f6c0742fb0db0bf7921c690b255f6f7d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 001/119] fix: save settings atomically and keep unsaved
 changes if saving fails

The configuration file was truncated and rewritten in place, so a crash or
a full disk during a save destroyed every saved setting, and the session's
changes were forgotten before the write so a failed save could not be
repeated.
---
 nimble/core/configuration.py | 76 ++++++++++++++++++++++++------------
 1 file changed, 50 insertions(+), 26 deletions(-)

diff --git a/nimble/core/configuration.py b/nimble/core/configuration.py
index 3ff8888..954c003 100644
--- a/nimble/core/configuration.py
+++ b/nimble/core/configuration.py
@@ -35,11 +35,14 @@ configuration file reflects all available options.
 
 # Note: .ini format's option names are not case sensitive?
 
+import copy
 import os
 import inspect
 import configparser
 import pathlib
 import importlib
+import shutil
+import tempfile
 
 import nimble
 from nimble.exceptions import InvalidArgumentType, InvalidArgumentValue
@@ -284,41 +287,62 @@ class SessionConfiguration(object):
         if not self.changes:
             return
 
-        def changeIndividual(changeSec, changeOpt, changeVal):
-            if not self.parser.has_section(changeSec):
-                self.parser.add_section(changeSec)
-            self.parser.set(changeSec, changeOpt, changeVal)
-
-
         if section is None:
             if option is not None:
                 msg = "Must specify a section if specifying an option"
                 raise InvalidArgumentValueCombination(msg)
             # save all
-            for sec, options in self.changes.items():
-                for opt in options:
-                    optVal = options[opt]
-                    changeIndividual(sec, opt, optVal)
-
-            self.changes = {}
+            toSave = {sec: dict(opts) for sec, opts in self.changes.items()}
         elif option is None and section in self.changes:
-            #save section
-            for opt in self.changes[section]:
-                changeIndividual(section, opt,
-                                 self.changes[section][opt])
-
-            del self.changes[section]
+            # save section
+            toSave = {section: dict(self.changes[section])}
         elif (option is not None and section in self.changes
               and option in self.changes[section]):
             # save specific
-            optVal = self.changes[section][option]
-            changeIndividual(section, option, optVal)
-            del self.changes[section][option]
-            if len(self.changes[section]) == 0:
-                del self.changes[section]
-
-        with open(self.path, 'w', encoding='utf-8') as configFile:
-            self.parser.write(configFile)
+            toSave = {section: {option: self.changes[section][option]}}
+        else:
+            toSave = {}
+
+        # The file is written before modifying any of the state of this object
+        # so that the changes are not lost if writing to the file fails.
+        updated = copy.deepcopy(self.parser)
+        for sec, options in toSave.items():
+            if not updated.has_section(sec):
+                updated.add_section(sec)
+            for opt, optVal in options.items():
+                updated.set(sec, opt, optVal)
+
+        self._writeFile(updated)
+
+        self.parser = updated
+        for sec, options in toSave.items():
+            for opt in options:
+                del self.changes[sec][opt]
+            if len(self.changes[sec]) == 0:
+                del self.changes[sec]
+
+    def _writeFile(self, parser):
+        """
+        Replace the configuration file with the contents of the parser.
+
+        The contents are written to a temporary file that then replaces
+        the configuration file in a single step. This guarantees that a
+        failure during writing cannot leave the configuration file empty
+        or incomplete.
+        """
+        path = os.path.realpath(self.path)
+        fileNum, tempPath = tempfile.mkstemp(dir=os.path.dirname(path),
+                                             prefix='.nimble-', suffix='.tmp')
+        try:
+            with open(fileNum, 'w', encoding='utf-8') as configFile:
+                parser.write(configFile)
+            if os.path.exists(path):
+                shutil.copymode(path, tempPath)
+            os.replace(tempPath, path)
+        except BaseException:
+            if os.path.exists(tempPath):
+                os.remove(tempPath)
+            raise
 
 
 def loadSettings():
-- 
2.43.0


From 6312688f973e3431a604ee40b768f125e93becae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 002/119] fix: allow '%' in setting values

A value containing '%' was accepted by set but made every later save fail
(and a file containing one could not be read), because of the parser's
string interpolation.
---
 nimble/core/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/configuration.py b/nimble/core/configuration.py
index 954c003..3420ec0 100644
--- a/nimble/core/configuration.py
+++ b/nimble/core/configuration.py
@@ -90,7 +90,7 @@ class SessionConfiguration(object):
         changes to that configuration set and gives the user control
         over which changes should be saved and when.
         """
-        self.parser = configparser.ConfigParser()
+        self.parser = configparser.ConfigParser(interpolation=None)
         # Needs to be set if you want option names to be case sensitive
         self.parser.optionxform = str
         self.parser.read(path)
-- 
2.43.0


From 6ec8e4d98e3d5b762170c89b1187910402401251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 003/119] fix: saving settings no longer undoes values saved by
 other sessions

Each save rewrote the whole file from what this session loaded at its
start, dropping everything other sessions had saved since.
---
 nimble/core/configuration.py | 41 ++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/nimble/core/configuration.py b/nimble/core/configuration.py
index 3420ec0..a72aae4 100644
--- a/nimble/core/configuration.py
+++ b/nimble/core/configuration.py
@@ -90,11 +90,8 @@ class SessionConfiguration(object):
         changes to that configuration set and gives the user control
         over which changes should be saved and when.
         """
-        self.parser = configparser.ConfigParser(interpolation=None)
-        # Needs to be set if you want option names to be case sensitive
-        self.parser.optionxform = str
-        self.parser.read(path)
         self.path = path
+        self.parser = self._getParser()
 
         # dict of section name to dict of option name to value
         self.changes = {}
@@ -303,24 +300,42 @@ class SessionConfiguration(object):
         else:
             toSave = {}
 
+        def addTo(parser):
+            for sec, options in toSave.items():
+                if not parser.has_section(sec):
+                    parser.add_section(sec)
+                for opt, optVal in options.items():
+                    parser.set(sec, opt, optVal)
+
+        # The file may contain options that were saved by another session
+        # since this session loaded it, so the changes must be added to the
+        # current contents of the file.
+        if os.path.exists(self.path):
+            inFile = self._getParser()
+        else:
+            inFile = copy.deepcopy(self.parser)
+        addTo(inFile)
         # The file is written before modifying any of the state of this object
         # so that the changes are not lost if writing to the file fails.
-        updated = copy.deepcopy(self.parser)
-        for sec, options in toSave.items():
-            if not updated.has_section(sec):
-                updated.add_section(sec)
-            for opt, optVal in options.items():
-                updated.set(sec, opt, optVal)
-
-        self._writeFile(updated)
+        self._writeFile(inFile)
 
-        self.parser = updated
+        addTo(self.parser)
         for sec, options in toSave.items():
             for opt in options:
                 del self.changes[sec][opt]
             if len(self.changes[sec]) == 0:
                 del self.changes[sec]
 
+    def _getParser(self):
+        """
+        A parser containing the current contents of the configuration file.
+        """
+        parser = configparser.ConfigParser(interpolation=None)
+        # Needs to be set if you want option names to be case sensitive
+        parser.optionxform = str
+        parser.read(self.path, encoding='utf-8')
+        return parser
+
     def _writeFile(self, parser):
         """
         Replace the configuration file with the contents of the parser.
-- 
2.43.0


From dd54ffc0f18e6a493b33b54082253f78adf3d6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 004/119] fix: reading all settings no longer marks saved
 values as changes

get() without arguments filled the dictionaries of unsaved changes with
the values from the file, so a later save of a section wrote them back.
---
 nimble/core/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/configuration.py b/nimble/core/configuration.py
index a72aae4..9cf2a7c 100644
--- a/nimble/core/configuration.py
+++ b/nimble/core/configuration.py
@@ -154,7 +154,7 @@ class SessionConfiguration(object):
             # section not in changes or config file
             raise configparser.NoSectionError(section)
 
-        ret = self.changes.copy()
+        ret = {sec: opts.copy() for sec, opts in self.changes.items()}
         for cpSection in self.parser.sections():
             if cpSection not in ret:
                 ret[cpSection] = {}
-- 
2.43.0


From b2e41c202174bca724c7552ab9fefac979c31302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 005/119] fix: setting an option back to its saved value takes
 full effect

It silently skipped the option's hook (the logger kept using the other
location) and dropped the change even when another session had since
saved something else, so setDefault could leave the file unchanged.
---
 nimble/core/configuration.py | 16 ----------------
 1 file changed, 16 deletions(-)

diff --git a/nimble/core/configuration.py b/nimble/core/configuration.py
index 9cf2a7c..75ac425 100644
--- a/nimble/core/configuration.py
+++ b/nimble/core/configuration.py
@@ -212,22 +212,6 @@ class SessionConfiguration(object):
         called to make this change permanent by saving it to the
         configuration file.
         """
-        # if we are setting a value which matches the
-        # value in file, we should adjust the changes
-        # dict accordingly
-        try:
-            inFile = self.parser.get(section, option)
-            if (inFile == value and section in self.changes
-                    and option in self.changes[section]):
-                del self.changes[section][option]
-                if len(self.changes[section]) == 0:
-                    del self.changes[section]
-                return
-        except configparser.NoSectionError:
-            pass
-        except configparser.NoOptionError:
-            pass
-
         # check: is this section the name of an interface
         try:
             ignore = True
-- 
2.43.0


From 4af0d29bfb919341b9d8e21a7cb944564f6784c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 006/119] fix: sessions starting to log at once no longer fail
 creating the log directory

---
 nimble/core/logger/session_logger.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index 9bfdfe4..d436f29 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -232,8 +232,7 @@ class SessionLogger(object):
             self.logFileName = newFileName
 
         dirPath = os.path.dirname(self.logFileName)
-        if not os.path.exists(dirPath):
-            os.makedirs(dirPath)
+        os.makedirs(dirPath, exist_ok=True)
         self.connection = sqlite3.connect(self.logFileName)
         def regexp(y, x, search=re.search):
             return 1 if search(y, x) else 0
-- 
2.43.0


From 6e1131f0c731c4cf6d31cfb012ecb395673e7965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 007/119] fix: a log entry that could not be stored no longer
 blocks the log or appears later

---
 nimble/core/logger/session_logger.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index d436f29..1aaa143 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -302,9 +302,16 @@ class SessionLogger(object):
         statement = "INSERT INTO logger "
         statement += "(timestamp,sessionNumber,logType,logInfo) "
         statement += "VALUES (?,?,?,?);"
-        self.cursor.execute(statement, (timestamp, sessionNum, logType,
-                                        logInfo))
-        self.connection.commit()
+        try:
+            self.cursor.execute(statement, (timestamp, sessionNum, logType,
+                                            logInfo))
+            self.connection.commit()
+        except BaseException:
+            # an open transaction would block all other sessions and be
+            # stored along with a later entry
+            if self.connection.in_transaction:
+                self.connection.rollback()
+            raise
 
 
     def extractFromLog(self, query, values=None):
-- 
2.43.0


From e12b68b3ba2c65caba76c9ff49381eba8d6fa330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 008/119] fix: sessions logging at the same time no longer
 share a session number

---
 nimble/core/logger/session_logger.py | 35 ++++++++++++++++++----------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index 1aaa143..21174de 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -249,13 +249,8 @@ class SessionLogger(object):
         self.cursor.execute(statement)
         self.connection.commit()
 
-        statement = "SELECT MAX(sessionNumber) FROM logger;"
-        self.cursor.execute(statement)
-        lastSession = self.cursor.fetchone()[0] #fetchone returns a tuple
-        if lastSession is not None:
-            self.sessionNumber = lastSession + 1
-        else:
-            self.sessionNumber = 0
+        # determined when the first entry of this session is stored
+        self.sessionNumber = None
 
         self.isAvailable = True
 
@@ -297,22 +292,38 @@ class SessionLogger(object):
             self.setup(self.logFileName)
 
         timestamp = strftime('%Y-%m-%d %H:%M:%S')
-        sessionNum = self.sessionNumber
         logInfo = repr(logInfo)
         statement = "INSERT INTO logger "
         statement += "(timestamp,sessionNumber,logType,logInfo) "
         statement += "VALUES (?,?,?,?);"
+        firstEntry = self.sessionNumber is None
         try:
-            self.cursor.execute(statement, (timestamp, sessionNum, logType,
-                                            logInfo))
+            if firstEntry:
+                # the number must be found and stored in one transaction,
+                # otherwise another session could use the same number
+                self.cursor.execute("BEGIN IMMEDIATE;")
+                self.sessionNumber = self._nextSessionNumber()
+            self.cursor.execute(statement, (timestamp, self.sessionNumber,
+                                            logType, logInfo))
             self.connection.commit()
-        except BaseException:
+        except BaseException as e:
             # an open transaction would block all other sessions and be
             # stored along with a later entry
-            if self.connection.in_transaction:
+            unfinished = self.connection.in_transaction
+            if unfinished:
                 self.connection.rollback()
+            if firstEntry and (unfinished or isinstance(e, sqlite3.Error)):
+                self.sessionNumber = None
             raise
 
+    def _nextSessionNumber(self):
+        """
+        One more than the number of the last session with an entry.
+        """
+        self.cursor.execute("SELECT MAX(sessionNumber) FROM logger;")
+        lastSession = self.cursor.fetchone()[0] #fetchone returns a tuple
+        return 0 if lastSession is None else lastSession + 1
+
 
     def extractFromLog(self, query, values=None):
         """
-- 
2.43.0


From bc1b20a1d382756aef4658eb82655a2fac73552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 009/119] fix: showLog accepts datetime objects as startDate
 and endDate

---
 nimble/core/logger/session_logger.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index 21174de..b598de8 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -162,11 +162,13 @@ def showLog(levelOfDetail=2, leastSessionsAgo=0, mostSessionsAgo=1,
     if levelOfDetail < 1 or levelOfDetail > 3 or levelOfDetail is None:
         msg = "levelOfDetail must be 1, 2, or 3"
         raise InvalidArgumentValue(msg)
+    if startDate is not None:
+        startDate = stringToDatetime(startDate)
+    if endDate is not None:
+        endDate = stringToDatetime(endDate)
     if (startDate is not None
             and endDate is not None
             and startDate > endDate):
-        startDate = stringToDatetime(startDate)
-        endDate = stringToDatetime(endDate)
         msg = "The startDate must be before the endDate"
         raise InvalidArgumentValueCombination(msg)
     if leastSessionsAgo is not None:
@@ -840,8 +842,10 @@ def stringToDatetime(string):
     if any value cannot be converted to an integer. Last, an attempt to
     create the datetime.datetime object is made, if it deems a value to
     be invalid (i.e a date that doesn't exist) this will also raise a
-    ValueError.
+    ValueError. A datetime object is returned as it is.
     """
+    if isinstance(string, datetime.datetime):
+        return string
     string = string.strip()
 
     datetimeArgs = []
-- 
2.43.0


From 56a8292975802231c5033d17ffe0d2e2beb01c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 010/119] fix: '%' and '_' in the text searched for by showLog
 are not wildcards

---
 nimble/core/logger/session_logger.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index b598de8..223a46f 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -954,8 +954,11 @@ def _showLogQueryAndValues(leastSessionsAgo, mostSessionsAgo, startDate,
             searchForText = re.compile(searchForText).pattern
             whereQueryList.append("(logType REGEXP ? or logInfo REGEXP ?)")
         else:
+            # the text can contain characters that are wildcards for LIKE
+            searchForText = re.sub(r"([\\%_])", r"\\\1", searchForText)
             searchForText = "%" + searchForText + "%"
-            whereQueryList.append("(logType LIKE ? or logInfo LIKE ?)")
+            where = "(logType LIKE ? ESCAPE '\\' or logInfo LIKE ? ESCAPE '\\')"
+            whereQueryList.append(where)
         includedValues.append(searchForText)
         includedValues.append(searchForText)
 
-- 
2.43.0


From 452ec1a5c33f3fe7cfc4cb89ec0cc9a544016383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:18 +0000
Subject: [PATCH 011/119] fix: showLog finds searched text that is stored in
 escaped form

---
 nimble/core/logger/session_logger.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index 223a46f..4ff1e88 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -953,14 +953,19 @@ def _showLogQueryAndValues(leastSessionsAgo, mostSessionsAgo, startDate,
         if regex:
             searchForText = re.compile(searchForText).pattern
             whereQueryList.append("(logType REGEXP ? or logInfo REGEXP ?)")
+            includedValues.extend([searchForText] * 2)
         else:
-            # the text can contain characters that are wildcards for LIKE
-            searchForText = re.sub(r"([\\%_])", r"\\\1", searchForText)
-            searchForText = "%" + searchForText + "%"
-            where = "(logType LIKE ? ESCAPE '\\' or logInfo LIKE ? ESCAPE '\\')"
-            whereQueryList.append(where)
-        includedValues.append(searchForText)
-        includedValues.append(searchForText)
+            # logInfo is stored as a repr string, which can escape characters
+            forms = [searchForText, repr(searchForText)[1:-1],
+                     repr(searchForText + "'\"")[1:-4]]
+            whereForms = []
+            for form in dict.fromkeys(forms):
+                # the text can contain characters that are wildcards for LIKE
+                form = re.sub(r"([\\%_])", r"\\\1", form)
+                includedValues.extend(["%" + form + "%"] * 2)
+                whereForms.append("logType LIKE ? ESCAPE '\\'")
+                whereForms.append("logInfo LIKE ? ESCAPE '\\'")
+            whereQueryList.append("(" + " or ".join(whereForms) + ")")
 
     if whereQueryList:
         whereQuery = " and ".join(whereQueryList)
-- 
2.43.0


From c1a44692b9dbf0ab04a53fa870310a8fa635a1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 012/119] fix: data in a gzip compressed tar file is loaded,
 not the tar file's bytes

---
 nimble/core/_createHelpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 34b055b..7579932 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2234,10 +2234,11 @@ def createDataFromFile(
 
     # check if need to decompress or extract file
     with BytesIO(content) as toCheck:
-        if _isGZip(toCheck):
-            content = _decompressGZip(toCheck).read()
-        elif _isArchive(toCheck):
+        # an archive can be compressed with gzip as a whole
+        if _isArchive(toCheck):
             content = _extractFromArchive(toCheck, dataFilter).read()
+        elif _isGZip(toCheck):
+            content = _decompressGZip(toCheck).read()
 
     with BytesIO(content) as toCheck:
         extension = _autoFileTypeChecker(toCheck)
-- 
2.43.0


From 45c9903113d1eab6b1a127c713bd612e156a394d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 013/119] fix: fetchFiles unpacks gzip compressed tar files

---
 nimble/core/_createHelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 7579932..b850762 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1808,7 +1808,7 @@ def _processArchiveFile(filename, extract):
         archiveObj = zipfile.ZipFile
         nameGetter = 'namelist'
     else:
-        archiveObj = tarfile.TarFile
+        archiveObj = tarfile.open
         nameGetter = 'getnames'
     with archiveObj(filename, 'r') as fileObj:
         names = getattr(fileObj, nameGetter)()
-- 
2.43.0


From c5260fd85f60db771abcbd2b76bd2d65914df321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 014/119] fix: an interrupted or failed fetch no longer leaves
 incomplete files to be used later

---
 nimble/core/_createHelpers.py | 174 ++++++++++++++++++++++------------
 1 file changed, 112 insertions(+), 62 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index b850762..9bd6a83 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -33,6 +33,7 @@ import zipfile
 import tarfile
 import gzip
 import shutil
+import tempfile
 import urllib.parse
 import locale
 import pickle
@@ -1798,49 +1799,68 @@ def _isGZip(filename):
     with open(filename, 'rb') as f:
         return f.read(2) == b'\x1f\x8b'
 
-def _processArchiveFile(filename, extract):
+def _archiveFileNames(archive, filename):
     """
-    Extract contents of an archive file.
-
-    Return a list of paths to the extracted files.
+    The names in an open zip or tar archive. None if they could be placed
+    anywhere but the directory of the archive or replace the archive.
     """
-    if zipfile.is_zipfile(filename):
-        archiveObj = zipfile.ZipFile
-        nameGetter = 'namelist'
+    if isinstance(archive, zipfile.ZipFile):
+        names = archive.namelist()
     else:
-        archiveObj = tarfile.open
-        nameGetter = 'getnames'
-    with archiveObj(filename, 'r') as fileObj:
-        names = getattr(fileObj, nameGetter)()
-        if any(os.path.isabs(name) or '..' in name for name in names):
-            # potential security risk will not perform extraction
-            return [filename]
-
-        location = os.path.dirname(filename)
-        paths = [os.path.join(location, name) for name in names]
-        # only need to extract if overwrite or any expected files don't exist
-        if extract or not all(os.path.exists(path) for path in paths):
-            fileObj.extractall(location)
-
-        files = []
-        for path in paths:
-            if os.path.isfile(path):
-                files.append(path)
+        names = archive.getnames()
+    ownName = os.path.basename(filename)
+    if any(os.path.isabs(name) or '..' in name
+           or name.split('/')[0] == ownName for name in names):
+        # potential security risk will not perform extraction
+        return None
+    return names
 
-        return files
+def _openArchive(filename):
+    if zipfile.is_zipfile(filename):
+        return zipfile.ZipFile(filename, 'r')
+    return tarfile.open(filename, 'r')
 
-def _processCompressedFile(filename):
+def _localFiles(filename):
     """
-    Decompress a gzip file.
+    Paths to the unpacked contents of a stored file.
+
+    Return None if the contents are not (completely) available.
     """
-    with gzip.open(filename, 'rb') as fIn:
-        if filename.endswith('.gz'):
-            unzipped = filename[:-3]
-        else:
-            unzipped = filename
-        with open(unzipped, 'wb') as fOut:
-            shutil.copyfileobj(fIn, fOut)
-        return [unzipped]
+    if _isArchive(filename):
+        with _openArchive(filename) as archive:
+            names = _archiveFileNames(archive, filename)
+        if names is None:
+            return [filename]
+        location = os.path.dirname(filename)
+        paths = [os.path.join(location, name) for name in names]
+        if not all(os.path.exists(path) for path in paths):
+            return None
+        return [path for path in paths if os.path.isfile(path)]
+    if filename.endswith('.gz') and _isGZip(filename):
+        return [filename[:-3]] if os.path.exists(filename[:-3]) else None
+    return [filename]
+
+def _unpackFile(filename, directory):
+    """
+    Unpack an archive or gzip file into the directory.
+
+    Return the names of the unpacked files, None for any other file.
+    """
+    if _isArchive(filename):
+        with _openArchive(filename) as archive:
+            names = _archiveFileNames(archive, filename)
+            if names is None:
+                return None
+            archive.extractall(directory)
+        return [name for name in names
+                if os.path.isfile(os.path.join(directory, name))]
+    if filename.endswith('.gz') and _isGZip(filename):
+        name = os.path.basename(filename)[:-3]
+        with gzip.open(filename, 'rb') as fIn:
+            with open(os.path.join(directory, name), 'wb') as fOut:
+                shutil.copyfileobj(fIn, fOut)
+        return [name]
+    return None
 
 def _processUCISource(source):
     """
@@ -1956,24 +1976,13 @@ class _DirectURLManager:
     def __init__(self, source, checkLocal=True):
         self.source = source
         self.path = _getNimbleDataPath(self.source)
+        self.local = None
         if checkLocal and os.path.exists(self.path):
             if not os.path.isfile(self.path):
                 # need to use _IndirectURLManager
                 msg = 'source does not provide downloadable data'
                 raise InvalidArgumentValue(msg)
-            if _isArchive(self.path):
-                self.local = _processArchiveFile(self.path, False)
-            else:
-                isGZip = _isGZip(self.path)
-                if isGZip and os.path.exists(self.path[:-3]):
-                    # already decompressed gzip file
-                    self.local = [self.path[:-3]]
-                elif isGZip:
-                    self.local = _processCompressedFile(self.path)
-                else:
-                    self.local = [self.path]
-        else:
-            self.local = None
+            self.local = self._getLocal()
         if self.local is None and not _isDownloadable(self.source):
             msg = 'source does not provide downloadable data'
             raise InvalidArgumentValue(msg)
@@ -1989,24 +1998,65 @@ class _DirectURLManager:
 
         response = _getURLResponse(self.source)
 
-        directory = os.path.split(self.path)[0]
-        if not os.path.exists(directory):
-            os.makedirs(directory)
+        directory, name = os.path.split(self.path)
+        os.makedirs(directory, exist_ok=True)
+        with tempfile.TemporaryDirectory(prefix='.fetch', dir=directory) as tmp:
+            download = os.path.join(tmp, name)
+            with open(download, 'wb') as f:
+                f.write(response.content)
+            return self._store(download, tmp)
 
-        with open(self.path, 'w+b') as f:
-            f.write(response.content)
+    def _getLocal(self):
+        """
+        The paths of the files available from local storage.
+        """
+        try:
+            local = _localFiles(self.path)
+            if local is None:
+                directory = os.path.dirname(self.path)
+                with tempfile.TemporaryDirectory(prefix='.fetch',
+                                                 dir=directory) as tmp:
+                    local = self._store(self.path, tmp)
+        except Exception: # pylint: disable=broad-except
+            local = [self.path]
+        return local
 
-        self.local = self.path
+    def _store(self, download, tmp):
+        """
+        Place a complete file, and its contents if it can be unpacked.
 
+        The contents are unpacked to the temporary directory first and
+        the file itself is always the last to be placed. Since nothing
+        is considered to be in local storage without it, a failure or an
+        interruption at any point does not lead to incomplete files being
+        used later.
+        """
+        directory = os.path.dirname(self.path)
+        unpacked = os.path.join(tmp, 'unpacked')
+        os.mkdir(unpacked)
         try:
-            if _isArchive(self.path):
-                return _processArchiveFile(self.path, overwrite)
-            if _isGZip(self.path):
-                return _processCompressedFile(self.path)
+            names = _unpackFile(download, unpacked)
         except Exception: # pylint: disable=broad-except
-            pass # return the archive file on failure
-
-        return [self.path]
+            names = None # return the archive file on failure
+
+        isNew = download != self.path
+        if isNew and os.path.exists(self.path):
+            os.remove(self.path)
+        if names is None:
+            # contents of an earlier file do not belong to the new one
+            for path in self.local or []:
+                if path != self.path and os.path.exists(path):
+                    os.remove(path)
+        paths = []
+        for name in names or []:
+            path = os.path.join(directory, name)
+            os.makedirs(os.path.dirname(path), exist_ok=True)
+            os.replace(os.path.join(unpacked, name), path)
+            paths.append(path)
+        if isNew:
+            os.replace(download, self.path)
+
+        return paths if names is not None else [self.path]
 
 class _IndirectURLManager:
     """
-- 
2.43.0


From 6fb8e86a08c833bad43acc617885ff6ab6ae3018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 015/119] fix: quote all csv names and values that would not be
 read back as written

---
 nimble/core/data/_dataHelpers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index ce95dca..a44815b 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -768,9 +768,11 @@ class NimbleElementIterator(object):
 
 def csvCommaFormat(name):
     """
-    Prevent the name from being interpreted as two different csv values.
+    Prevent the name from being interpreted as two different csv values,
+    as quoted text or as a comment.
     """
-    if isinstance(name, str) and ',' in name:
+    if (isinstance(name, str)
+            and (name.startswith('#') or any(c in name for c in ',"\r\n'))):
         if '"' in name:
             name = re.sub(r'"', '""', name)
         name = f'"{name}"'
-- 
2.43.0


From d8cd558003d84052ff29b9a44869fff84abc5688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 016/119] fix: saving a data frame to csv never changes its
 labels, also when it fails; quote a leading #

---
 nimble/core/data/dataframe.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index e4b15e7..1153769 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -19,6 +19,7 @@
 Class extending Base, using a pandas DataFrame to store data.
 """
 
+import csv
 import itertools
 import numbers
 
@@ -157,22 +158,31 @@ class DataFrame(Base):
         Function to write the data in this object to a CSV file at the
         designated path.
         """
+        # the names are set on a shallow copy so that this object does not
+        # change, even if the data cannot be written
+        toWrite = self._data.copy(deep=False)
         with open(outPath, 'w', encoding='utf-8') as outFile:
             if includeFeatureNames:
-                self._data.columns = self.features.getNames()
+                toWrite.columns = self.features.getNames()
                 if includePointNames:
                     outFile.write('pointNames')
 
             if includePointNames:
-                self._data.index = self.points.getNames()
+                toWrite.index = self.points.getNames()
 
-        self._data.to_csv(outPath, mode='a', index=includePointNames,
-                          header=includeFeatureNames)
-
-        if includePointNames:
-            self._data.index = pd.RangeIndex(len(self._data.index))
+        # a file cannot start with '#' as that would start a comment
         if includeFeatureNames:
-            self._data.columns = pd.RangeIndex(len(self._data.columns))
+            first = toWrite.columns[0]
+        elif includePointNames:
+            first = toWrite.index[0]
+        else:
+            first = toWrite.iloc[0, 0]
+        if isinstance(first, str) and first.startswith('#'):
+            quoting = csv.QUOTE_NONNUMERIC
+        else:
+            quoting = csv.QUOTE_MINIMAL
+        toWrite.to_csv(outPath, mode='a', index=includePointNames,
+                       header=includeFeatureNames, quoting=quoting)
 
     def _saveMTX_implementation(self, outPath, includePointNames,
                                 includeFeatureNames):
-- 
2.43.0


From 9b64c68b7bb6255548b0c8520acf18b0d6e9619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 017/119] fix: refuse names and values an mtx file cannot hold

---
 nimble/core/data/base.py | 10 ++++++++++
 nimble/core/data/list.py |  6 ++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 99cefb1..bb31509 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1909,6 +1909,16 @@ class Base(ABC):
             return self._saveCSV_implementation(
                 outPath, includePointNames, includeFeatureNames)
 
+        for included, axis in [(includePointNames, self.points),
+                               (includeFeatureNames, self.features)]:
+            if included and any(n is None or ',' in n or n.strip() != n
+                                or len(n.splitlines()) != 1
+                                for n in axis.getNames()):
+                msg = f"The {axis._axis} names cannot be written to an mtx "
+                msg += "file because all names in it must be non-empty and "
+                msg += "without commas, line breaks or surrounding spaces"
+                raise InvalidArgumentValue(msg)
+
         return self._saveMTX_implementation(
             outPath, includePointNames, includeFeatureNames)
 
diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index 96fde34..ae3505d 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -229,6 +229,9 @@ class List(Base):
         Function to write the data in this object to a matrix market
         file at the designated path.
         """
+        # only numeric values can be stored in this format
+        values = [[float(value) for value in row] for row in self._data]
+
         with open(outPath, 'w', encoding='utf-8') as outFile:
             outFile.write("%%MatrixMarket matrix array real general\n")
 
@@ -254,8 +257,7 @@ class List(Base):
 
             for j in range(len(self.features)):
                 for i in range(len(self.points)):
-                    value = self._data[i][j]
-                    outFile.write(str(value) + '\n')
+                    outFile.write(str(values[i][j]) + '\n')
 
     def _referenceFrom_implementation(self, other, kwargs):
         kwargs.setdefault('checkAll', False)
-- 
2.43.0


From 8c95fbae714b954d24de0763751f9bc7aeb9ac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 018/119] fix: hdf files keep the order and dimensions of
 points and refuse names they cannot hold

---
 nimble/core/data/base.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index bb31509..e1dd7b5 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1937,14 +1937,22 @@ class Base(ABC):
             raise PackageException(msg)
         if includePointNames:
             pnames = self.points.getNames()
+            if any(n is None or '/' in n or n in ('', '.') for n in pnames):
+                msg = "Every point must have a name and names cannot be '.' "
+                msg += "or contain '/' to be included in an hdf file"
+                raise InvalidArgumentValue(msg)
             userblockSize = 512
         else:
             pnames = [str(i) for i in range(len(self.points))]
             userblockSize = 0
-        with h5py.File(outPath, 'w', userblock_size=userblockSize) as hdf:
+        # without track_order the points would be read in alphabetical order
+        with h5py.File(outPath, 'w', userblock_size=userblockSize,
+                       track_order=True) as hdf:
             for name, point in zip(pnames, self.points):
                 point._convertToNumericTypes()
                 asArray = point.copy('numpy array')
+                if len(self._dims) == 2:
+                    asArray = asArray.reshape(-1)
                 _ = hdf.create_dataset(name, data=asArray)
                 hdf.flush()
         if includePointNames:
-- 
2.43.0


From 84aecd74b504ebf0980abbb0a7faf167f5a579fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 019/119] fix: csv columns starting with missing values are
 numeric if their values are

---
 nimble/core/_createHelpers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 9bd6a83..30625c9 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2440,6 +2440,7 @@ def _csvColTypeTracking(row, convertCols, nonNumericFeatures,
     added to nonNumericFeatures.
     """
     delKeys = []
+    numericStart = {}
     if convertCols:
         for idx, currType in convertCols.items():
             colVal = _intFloatBoolOrString(row[idx])
@@ -2457,6 +2458,10 @@ def _csvColTypeTracking(row, convertCols, nonNumericFeatures,
         for idx in allEmptyFeatures:
             if row[idx] != '':
                 delKeys.append(idx)
+                # the first value present determines the type of the column
+                colType = type(_intFloatBoolOrString(row[idx]))
+                if colType not in (str, type(None)):
+                    numericStart[idx] = colType
 
     if delKeys:
         for key in delKeys:
@@ -2465,6 +2470,9 @@ def _csvColTypeTracking(row, convertCols, nonNumericFeatures,
                 nonNumericFeatures.add(key)
             else:
                 allEmptyFeatures.remove(key)
+    for idx, colType in numericStart.items():
+        convertCols[idx] = colType
+        nonNumericFeatures.remove(idx)
 
 def _colTypeConversion(row, convertCols, containsMissing):
     """
-- 
2.43.0


From 3515d761ea63ca017a29801fad776a71c338f04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 020/119] fix: load single valued csv lines, do not modify the
 csv module's default dialect

---
 nimble/core/_createHelpers.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 30625c9..014eea5 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2596,15 +2596,27 @@ def _detectDialectFromSeparator(ioStream, inputSeparator):
     _ = _advancePastComments(ioStream)
     if inputSeparator == 'automatic':
         # detect the delimiter from the first line of data
-        inputSeparator = csv.Sniffer().sniff(ioStream.readline()).delimiter
+        firstLine = ioStream.readline()
+        try:
+            inputSeparator = csv.Sniffer().sniff(firstLine).delimiter
+        except csv.Error:
+            inputSeparator = ','
+        # the line may be a single value
+        if (inputSeparator.isalnum()
+                or isNum(_intFloatOrString(firstLine.strip()))):
+            inputSeparator = ','
     elif len(inputSeparator) > 1:
         msg = "inputSeparator must be a single character"
         raise InvalidArgumentValue(msg)
     if inputSeparator == '\t':
         dialect = csv.excel_tab
     else:
-        dialect = csv.excel
-        dialect.delimiter = inputSeparator
+        # subclass so the dialect other users of csv rely on is not modified
+        class dialect(csv.excel):
+            """
+            The default dialect with the separator of this file.
+            """
+            delimiter = inputSeparator
 
     # reset everything to make the loop easier
     ioStream.seek(startPosition)
-- 
2.43.0


From e797793a1c810a5c463a008e8ef68078e4f4e2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 021/119] fix: report errors writing mtx files

---
 nimble/core/data/_dataHelpers.py | 13 +++++++++++++
 nimble/core/data/dataframe.py    |  4 ++--
 nimble/core/data/matrix.py       |  4 ++--
 nimble/core/data/sparse.py       |  4 ++--
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index a44815b..a1c9364 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -23,6 +23,7 @@ the main data wrapper objects defined in this module.
 import math
 import re
 from functools import wraps
+from io import BytesIO
 import os.path
 
 import numpy as np
@@ -778,6 +779,18 @@ def csvCommaFormat(name):
         name = f'"{name}"'
     return name
 
+def writeMatrixMarket(outPath, data, comment):
+    """
+    Write the data to the path in matrix market format.
+
+    The content is generated before the file is written because errors
+    writing to the disk are not reported by scipy.
+    """
+    with BytesIO() as content:
+        scipy.io.mmwrite(content, data, comment=comment)
+        with open(outPath, 'wb') as outFile:
+            outFile.write(content.getvalue())
+
 def limitedTo2D(method):
     """
     Wrapper for operations only allowed in two-dimensions.
diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index 1153769..7783eeb 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -40,6 +40,7 @@ from .dataframeAxis import DataFrameFeatures, DataFrameFeaturesView
 from ._dataHelpers import allDataIdentical
 from ._dataHelpers import createDataNoValidation
 from ._dataHelpers import denseCountUnique
+from ._dataHelpers import writeMatrixMarket
 from ._dataHelpers import NimbleElementIterator
 from ._dataHelpers import convertToNumpyOrder, isValid2DObject
 from ._dataHelpers import getFeatureDtypes
@@ -199,8 +200,7 @@ class DataFrame(Base):
             comment += ','.join(self.points.getNames())
         if includeFeatureNames:
             comment += '\n#' + ','.join(self.features.getNames())
-        scipy.io.mmwrite(outPath, self._data.astype(np.float64),
-                         comment=comment)
+        writeMatrixMarket(outPath, self._data.astype(np.float64), comment)
 
     def _copy_implementation(self, to):
         """
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 0fd5a76..873f77a 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -39,6 +39,7 @@ from ._dataHelpers import allDataIdentical
 from ._dataHelpers import createDataNoValidation
 from ._dataHelpers import csvCommaFormat
 from ._dataHelpers import denseCountUnique
+from ._dataHelpers import writeMatrixMarket
 from ._dataHelpers import NimbleElementIterator
 from ._dataHelpers import convertToNumpyOrder, modifyNumpyArrayValue
 from ._dataHelpers import isValid2DObject
@@ -175,8 +176,7 @@ class Matrix(Base):
         else:
             header += '#\n'
 
-        scipy.io.mmwrite(target=outPath, a=self._data.astype(np.float64),
-                         comment=header)
+        writeMatrixMarket(outPath, self._data.astype(np.float64), header)
 
     def _copy_implementation(self, to):
         if to in nimble.core.data.available:
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 45605e8..ef3b93d 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -42,6 +42,7 @@ from ._dataHelpers import allDataIdentical
 from ._dataHelpers import createDataNoValidation
 from ._dataHelpers import csvCommaFormat
 from ._dataHelpers import denseCountUnique
+from ._dataHelpers import writeMatrixMarket
 from ._dataHelpers import NimbleElementIterator
 from ._dataHelpers import convertToNumpyOrder, modifyNumpyArrayValue
 from ._dataHelpers import isValid2DObject
@@ -347,8 +348,7 @@ class Sparse(Base):
         else:
             header += '#\n'
 
-        scipy.io.mmwrite(target=outPath, a=self._data.astype(np.float64),
-                         comment=header)
+        writeMatrixMarket(outPath, self._data.astype(np.float64), header)
 
     def _referenceFrom_implementation(self, other, kwargs):
         super()._referenceFrom_implementation(other, kwargs)
-- 
2.43.0


From 582b89131982a6bfff5802bd32c1a17d67d14db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 022/119] fix: an error of the disk while saving an hdf file is
 raised instead of ending the process

---
 nimble/core/data/base.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index e1dd7b5..a61b392 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -30,6 +30,7 @@ import itertools
 import os.path
 from abc import ABC, abstractmethod
 from contextlib import contextmanager
+from io import BytesIO
 import shutil
 import re
 
@@ -1945,20 +1946,23 @@ class Base(ABC):
         else:
             pnames = [str(i) for i in range(len(self.points))]
             userblockSize = 0
-        # without track_order the points would be read in alphabetical order
-        with h5py.File(outPath, 'w', userblock_size=userblockSize,
-                       track_order=True) as hdf:
-            for name, point in zip(pnames, self.points):
-                point._convertToNumericTypes()
-                asArray = point.copy('numpy array')
-                if len(self._dims) == 2:
-                    asArray = asArray.reshape(-1)
-                _ = hdf.create_dataset(name, data=asArray)
-                hdf.flush()
-        if includePointNames:
-            with open(outPath, 'rb+') as f:
-                f.write(b'includePointNames ')
-                f.flush()
+        # without track_order the points would be read in alphabetical order.
+        # The content is generated before the file is written because hdf5
+        # can end the process if it fails to write to the disk.
+        with BytesIO() as content:
+            with h5py.File(content, 'w', userblock_size=userblockSize,
+                           track_order=True) as hdf:
+                for name, point in zip(pnames, self.points):
+                    point._convertToNumericTypes()
+                    asArray = point.copy('numpy array')
+                    if len(self._dims) == 2:
+                        asArray = asArray.reshape(-1)
+                    _ = hdf.create_dataset(name, data=asArray)
+            if includePointNames:
+                content.seek(0)
+                content.write(b'includePointNames ')
+            with open(outPath, 'wb') as outFile:
+                outFile.write(content.getvalue())
 
     def getTypeString(self):
         """
-- 
2.43.0


From 9f0a4fa4b10575f6a6c10fddfa300c64c05fa12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 023/119] fix: write missing values to csv so that a last
 column without values is kept

---
 nimble/core/data/dataframe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index 7783eeb..f55d620 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -183,7 +183,8 @@ class DataFrame(Base):
         else:
             quoting = csv.QUOTE_MINIMAL
         toWrite.to_csv(outPath, mode='a', index=includePointNames,
-                       header=includeFeatureNames, quoting=quoting)
+                       header=includeFeatureNames, quoting=quoting,
+                       na_rep='nan')
 
     def _saveMTX_implementation(self, outPath, includePointNames,
                                 includeFeatureNames):
-- 
2.43.0


From a068f545372154f8f411276d48dadce076480a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 024/119] fix: a single point saved to an hdf file stays a
 single point

---
 nimble/core/_createHelpers.py | 6 +++++-
 nimble/core/data/base.py      | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 014eea5..02c6995 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2832,6 +2832,8 @@ def _loadhdf5ForAuto(ioStream, pointNames, featureNames):
                 raise InvalidArgumentValue(msg)
             pnames.append(key)
             data.append(ptData)
+        # written by nimble, so a single Dataset is a single point
+        onlyPoints = 'nimblePoints' in hdf.attrs
 
     # by default 'automatic' will only assign point names if we identify
     # this was a file generated by nimble where includeNames was True.
@@ -2844,7 +2846,9 @@ def _loadhdf5ForAuto(ioStream, pointNames, featureNames):
     # if we only have one Dataset, we will default to returning only the
     # array contained in the Dataset unless the pointNames indicate that
     # we should keep the array contained in a single point
-    if len(data) == 1 and pointNames and pointNames is not True:
+    if onlyPoints:
+        pass
+    elif len(data) == 1 and pointNames and pointNames is not True:
         numNames = len(pointNames)
         innerShape = data[0].shape[0]
         # point names are for the array in the dataset
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index a61b392..9a219ce 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1952,6 +1952,8 @@ class Base(ABC):
         with BytesIO() as content:
             with h5py.File(content, 'w', userblock_size=userblockSize,
                            track_order=True) as hdf:
+                # each object in the file is a point, even if there is only one
+                hdf.attrs['nimblePoints'] = True
                 for name, point in zip(pnames, self.points):
                     point._convertToNumericTypes()
                     asArray = point.copy('numpy array')
-- 
2.43.0


From a7f49dfbdf290395889ad2a35439fe9c8845b5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 025/119] fix: damaged or failing sources raise, open sources
 keep their position, compressed pickles load

---
 nimble/core/_createHelpers.py | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 02c6995..5b9cb9d 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2258,8 +2258,10 @@ def createDataFromFile(
     # Case: we are given an open file already
     else:
         saved = source.tell()
-        content = source.read()
-        source.seek(saved)
+        try:
+            content = source.read()
+        finally:
+            source.seek(saved)
 
         if not isinstance(content, bytes):
             if source.encoding is not None:
@@ -2272,23 +2274,36 @@ def createDataFromFile(
         else:
             path = None
 
-    try:
+    def initPickled():
         ret = pickle.loads(content)
         return initDataObject(
             ret, pointNames, featureNames, returnType, name, convertToType,
             keepPoints, keepFeatures, treatAsMissing=treatAsMissing,
             replaceMissingWith=replaceMissingWith, rowsArePoints=rowsArePoints,
             copyData=None)
+
+    try:
+        return initPickled()
     except Exception: # pylint: disable=broad-except
         pass
 
     # check if need to decompress or extract file
+    packed = content
+    with BytesIO(content) as toCheck:
+        # decompressing all content first because it is only verified to be
+        # undamaged once it is read to the end
+        if _isGZip(toCheck):
+            content = _decompressGZip(toCheck).read()
+    # an archive can be compressed with gzip as a whole
     with BytesIO(content) as toCheck:
-        # an archive can be compressed with gzip as a whole
         if _isArchive(toCheck):
             content = _extractFromArchive(toCheck, dataFilter).read()
-        elif _isGZip(toCheck):
-            content = _decompressGZip(toCheck).read()
+
+    if content is not packed:
+        try:
+            return initPickled()
+        except Exception: # pylint: disable=broad-except
+            pass
 
     with BytesIO(content) as toCheck:
         extension = _autoFileTypeChecker(toCheck)
@@ -2296,7 +2311,12 @@ def createDataFromFile(
     if extension != 'csv':
         ioStream = BytesIO(content)
     else:
-        ioStream = StringIO(content.decode(encoding), newline=None)
+        text = content.decode(encoding)
+        # never present in text, but is in archives too damaged to identify
+        if '\0' in text:
+            msg = "The source is damaged or not in a format that can be loaded"
+            raise FileFormatException(msg)
+        ioStream = StringIO(text, newline=None)
 
     # if the file has a different, valid extension from the one we determined
     # we will defer to the file's extension
-- 
2.43.0


From 01ab1e1cfd3a90fad588adc54b3fe9719c32c477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:46 +0000
Subject: [PATCH 026/119] fix: tuning and setSeed leave the random state as it
 was

Tuning with a seed drew the cross-validation folds, the holdout selection
and the holdout training from the library-wide stream; setSeed with a seed
that only one generator accepts modified the other.
---
 nimble/core/tune.py         | 27 ++++++++++++++++-----------
 nimble/random/__init__.py   |  1 +
 nimble/random/randomness.py | 25 ++++++++++++++++++++++---
 3 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index abd34be..ccefcfe 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -603,14 +603,16 @@ class HoldoutData(HoldoutValidator):
     def _validate(self, arguments):
         if self._trainedLearner is None:
             self._trainedLearnerBase = nimble.train(
-                self.learnerName, self.X, self.Y, arguments, useLog=False)
+                self.learnerName, self.X, self.Y, arguments,
+                randomSeed=self.randomSeed, useLog=False)
             self._trainedLearner = self._trainedLearnerBase
             self._lastArguments = arguments
         elif self._updater is None:
             if self._incremental is None:
                 try:
                     self._trainedLearner.incrementalTrain(
-                        self.X, self.Y, arguments, useLog=False)
+                        self.X, self.Y, arguments, self.randomSeed,
+                        useLog=False)
                     self._updater = self._trainedLearner.incrementalTrain
                     self._incremental = True
                 except TypeError:
@@ -619,11 +621,13 @@ class HoldoutData(HoldoutValidator):
                 self._updater = self._trainedLearner.retrain
                 # only retrain if arguments have changed
                 if arguments != self._lastArguments:
-                    self._trainedLearner.retrain(self.X, self.Y, arguments,
-                                                 useLog=False)
+                    self._trainedLearner.retrain(
+                        self.X, self.Y, arguments, self.randomSeed,
+                        useLog=False)
             self._lastArguments = arguments
         elif self._incremental or arguments != self._lastArguments:
-            self._updater(self.X, self.Y, arguments, useLog=False)
+            self._updater(self.X, self.Y, arguments, self.randomSeed,
+                          useLog=False)
             self._lastArguments = arguments
 
         performance = self._trainedLearner.test(
@@ -1736,12 +1740,13 @@ class Tuning:
             raise InvalidArgumentValue(msg)
         if self.performanceFunction is None:
             self.performanceFunction = performanceFunction
-        self.validator = self._validator(
-            learnerName, trainX, trainY, self.performanceFunction,
-            randomSeed=randomSeed, useLog=useLog, **self._validatorArgs)
-        selector = self._selector(arguments, self.validator,
-                                  **self._selectorArgs)
-        selector.validateAll()
+        with nimble.random._controlIfSeeded(randomSeed):
+            self.validator = self._validator(
+                learnerName, trainX, trainY, self.performanceFunction,
+                randomSeed=randomSeed, useLog=useLog, **self._validatorArgs)
+            selector = self._selector(arguments, self.validator,
+                                      **self._selectorArgs)
+            selector.validateAll()
 
         # reverse based on optimal for performanceFunction
         highestIsBest = self.validator.optimal == 'max'
diff --git a/nimble/random/__init__.py b/nimble/random/__init__.py
index a9bf79d..ba16260 100644
--- a/nimble/random/__init__.py
+++ b/nimble/random/__init__.py
@@ -33,6 +33,7 @@ from .randomness import setSeed
 from .randomness import alternateControl
 from .randomness import generateSubsidiarySeed
 from .randomness import _getValidSeed
+from .randomness import _controlIfSeeded
 from .._utility import _setAll
 
 # for Sphinx docstring
diff --git a/nimble/random/randomness.py b/nimble/random/randomness.py
index 5fb3184..59149dd 100644
--- a/nimble/random/randomness.py
+++ b/nimble/random/randomness.py
@@ -21,7 +21,7 @@ Nimble functions and tests.
 """
 
 import random
-from contextlib import contextmanager
+from contextlib import contextmanager, nullcontext
 
 import numpy as np
 
@@ -51,8 +51,14 @@ def setSeed(seed, *, useLog=None):
         msg += 'state of randomness'
         raise RuntimeError(msg)
 
-    pythonRandom.seed(seed)
-    numpyRandom.seed(seed)
+    pythonState = pythonRandom.getstate()
+    try:
+        pythonRandom.seed(seed)
+        numpyRandom.seed(seed)
+    except BaseException:
+        # a seed that is not valid for both must not modify either
+        pythonRandom.setstate(pythonState)
+        raise
 
     handleLogging(useLog, 'setSeed', 'random.setSeed', seed=seed)
 
@@ -260,6 +266,19 @@ def _getValidSeed(seed):
     return seed
 
 
+def _controlIfSeeded(seed):
+    """
+    Context manager for operations that accept an optional random seed.
+
+    When a seed is provided, all randomness within the context is
+    determined by that seed and does not affect Nimble's random state.
+    Otherwise, Nimble's random state is used.
+    """
+    if seed is None:
+        return nullcontext()
+    return alternateControl(_getValidSeed(seed), useLog=False)
+
+
 def _stillDefaultState():
     """
     Determine if the random state is default or has been modified.
-- 
2.43.0


From db1250ef1d4f4b9411f9adc9fc4f17a9027a9984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:46 +0000
Subject: [PATCH 027/119] fix: scores and incremental training respect the
 random state

Identifying the classification strategy drew points from the library-wide
stream, and incrementalTrain without a seed used system randomness.
---
 nimble/core/interfaces/universal_interface.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index a7b90e6..b929d79 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1511,6 +1511,7 @@ class TrainedLearner(object):
             global option.
         """
         validateLearningArguments(trainX, trainY)
+        randomSeed = self._interface._getValidSeed(randomSeed)
         if arguments is not None:
             self.arguments.update(arguments)
         transformed = self._interface._inputTransformation(
@@ -1579,12 +1580,17 @@ class TrainedLearner(object):
             applyResults = self._interface._outputTransformation(
                 self.learnerName, applyResults, arguments, "match", "label",
                 self._customDict)
-        if len(rawScores.features) != 3:
-            strategy = ovaNotOvOFormatted(rawScores, applyResults, numLabels)
-        else:
-            strategy = checkClassificationStrategy(
-                self._interface, self.learnerName, self.arguments, arguments,
-                self._trainXShape, self.randomSeed)
+        # the points used to identify the strategy are random, but this must
+        # not affect nimble's random state
+        seed = 0 if self.randomSeed is None else self.randomSeed
+        with nimble.random.alternateControl(seed, useLog=False):
+            if len(rawScores.features) != 3:
+                strategy = ovaNotOvOFormatted(rawScores, applyResults,
+                                              numLabels)
+            else:
+                strategy = checkClassificationStrategy(
+                    self._interface, self.learnerName, self.arguments,
+                    arguments, self._trainXShape, self.randomSeed)
         # want the scores to be per label, regardless of the original format,
         # so we check the strategy, and modify it if necessary
         if not strategy:
-- 
2.43.0


From bdfab5cd71f02b9a06311a091e87a8270609b62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:25 +0000
Subject: [PATCH 028/119] fix: tuning with storm leaves pathlib as it was

Path.mkdir was replaced for the whole process.
---
 nimble/core/tune.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index ccefcfe..e1c466f 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -24,6 +24,7 @@ each argument set will be measured.
 """
 
 from abc import ABC, abstractmethod
+import os
 import itertools
 import time
 import operator
@@ -1246,10 +1247,6 @@ class StochasticRandomMutator(ArgumentSelector):
             raise PackageException(msg)
         # override storm_tuner randomness reproducibility
         storm_tuner.tuner.random = pythonRandom
-        # storm_tuner saves the best trial result to a project directory and
-        # creates one if not provided. We won't support saving, so need to
-        # prevent Path.mkdir from generating the default directory
-        storm_tuner.tuner.Path.mkdir = lambda *args, **kwargs: None
 
         self.maxIterations = maxIterations
         self.timeout = timeout
@@ -1314,7 +1311,11 @@ class StochasticRandomMutator(ArgumentSelector):
                     selector._bestPerf = score
                     selector.validator._best = (score, logArgs)
 
-        self.tuner = Tuner(self.validator, build_fn=_wrappedBuildFunc,
+        # storm_tuner saves the best trial result to a project directory and
+        # creates one if not provided. We don't support saving so provide a
+        # directory that already exists to prevent generating the default.
+        self.tuner = Tuner(self.validator, project_dir=os.curdir,
+                           build_fn=_wrappedBuildFunc,
                            init_random=initRandom, max_iters=maxIterations,
                            randomize_axis_factor=randomizeAxisFactor)
 
-- 
2.43.0


From f7d2248f7c7b61dea75cabb718e7527a68b49306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:24 +0000
Subject: [PATCH 029/119] fix: multi-class strategies train and vote in an
 order independent of hash randomization

---
 nimble/core/interfaces/universal_interface.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index b929d79..797d0a8 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -85,6 +85,17 @@ def captureOutput(toWrap):
     return wrapped
 
 
+def _orderedLabels(labels):
+    """
+    The unique labels, in an order independent of hash randomization.
+    """
+    unique = list(dict.fromkeys(labels))
+    try:
+        return sorted(unique)
+    except TypeError: # labels of different types, keep the order in the data
+        return unique
+
+
 class UniversalInterface(metaclass=abc.ABCMeta):
     """
     Metaclass defining methods and abstract methods for specific
@@ -216,7 +227,7 @@ class UniversalInterface(metaclass=abc.ABCMeta):
                 # Get set of unique class labels
                 labelVector = trainY.T
                 labelVectorToList = labelVector.copy(to="python list")[0]
-                labelSet = list(set(labelVectorToList))
+                labelSet = _orderedLabels(labelVectorToList)
 
                 # For each class label in the set of labels:  convert the true
                 # labels in trainY into boolean labels (1 if the point
@@ -254,7 +265,7 @@ class UniversalInterface(metaclass=abc.ABCMeta):
                 labelVector = trainX.features.copy([trainY])
                 labelVector.transpose(useLog=False)
                 labelVectorToList = labelVector.copy(to="python list")[0]
-                labelSet = list(set(labelVectorToList))
+                labelSet = _orderedLabels(labelVectorToList)
                 labelPairs = generateAllPairs(labelSet)
 
                 # For each pair of class labels: remove all points with one of
-- 
2.43.0


From 3eb89af6f7a1952226ad6ff147a87262c934684f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:19 +0000
Subject: [PATCH 030/119] fix: retrain and incrementalTrain modify a
 TrainedLearner only on success

A retrain that failed left new arguments and seed with the old model, a
successful one forgot the argument values set before and the names of the
new labels, and arguments were recorded before incremental training.
---
 nimble/core/interfaces/custom_learner.py      | 22 ++++--
 nimble/core/interfaces/universal_interface.py | 74 +++++++++++--------
 2 files changed, 59 insertions(+), 37 deletions(-)

diff --git a/nimble/core/interfaces/custom_learner.py b/nimble/core/interfaces/custom_learner.py
index f4147a1..d4fe962 100644
--- a/nimble/core/interfaces/custom_learner.py
+++ b/nimble/core/interfaces/custom_learner.py
@@ -165,14 +165,20 @@ class CustomLearnerInterface(UniversalInterface):
 
     def _incrementalTrainer(self, learnerName, learner, trainX, trainY,
                             arguments, randomSeed, customDict):
-        if learner.__class__.learnerType == 'classification':
-            flattenedY = dtypeConvert(trainY.copy(to='numpyarray').flatten())
-            if learner.labelList is None: # no previous training
-                learner.labelList = []
-            learner.labelList = np.union1d(learner.labelList, flattenedY)
-
-        with nimble.random.alternateControl(randomSeed, useLog=False):
-            learner.incrementalTrain(trainX, trainY, **arguments)
+        labelList = learner.labelList
+        try:
+            if learner.__class__.learnerType == 'classification':
+                flattenedY = trainY.copy(to='numpyarray').flatten()
+                flattenedY = dtypeConvert(flattenedY)
+                if learner.labelList is None: # no previous training
+                    learner.labelList = []
+                learner.labelList = np.union1d(learner.labelList, flattenedY)
+
+            with nimble.random.alternateControl(randomSeed, useLog=False):
+                learner.incrementalTrain(trainX, trainY, **arguments)
+        except BaseException:
+            learner.labelList = labelList
+            raise
 
         return learner
 
diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 797d0a8..ba8deae 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1452,45 +1452,47 @@ class TrainedLearner(object):
             has2dOutput = len(outputData.features) > 1
         elif isinstance(outputData, (list, tuple)):
             has2dOutput = len(outputData) > 1
-        self._randomSeed = self._interface._getValidSeed(randomSeed)
-
-        merged = mergeArguments(arguments, kwarguments)
+        provided = mergeArguments(arguments, kwarguments)
         self._interface._validateLearnerArgumentValues(self.learnerName,
-                                                       merged)
-        for arg, value in merged.items():
+                                                       provided)
+        for value in provided.values():
             if isinstance(value, nimble.Tune):
                 msg = "Cannot provide a hyperparameter tuning arguments "
                 msg += "for parameters to retrain a TrainedLearner. "
                 msg += "If wanting to perform hyperparameter tuning, use "
                 msg += "nimble.train()"
                 raise InvalidArgumentValue(msg)
-            self._arguments[arg] = value
-            self._transformedArguments[arg] = value
+        # previously set values remain unless they have been overridden
+        merged = {**(self._arguments or {}), **provided}
+        randomSeed = self._interface._getValidSeed(randomSeed)
 
         # separate training data / labels if needed
         if isinstance(trainY, (str, int, np.integer)):
             trainX = trainX.copy()
             trainY = trainX.features.extract(toExtract=trainY, useLog=False)
 
-        trainedBackend = self._interface._trainBackend(
-            self.learnerName, trainX, trainY, self._transformedArguments,
-            self.randomSeed)
-
-        newBackend = trainedBackend[0]
-        transformedInputs = trainedBackend[1]
-        customDict = trainedBackend[2]
-
-        self._backend = newBackend
-        self._trainXShape = trainX.shape
-        self._arguments = merged
-        self._transformedArguments = transformedInputs[3]
-        self._customDict = customDict
-        self._has2dOutput = has2dOutput
-        self._tuning = None
+        self._retrain(trainX, trainY, merged, randomSeed, has2dOutput)
 
         handleLogging(useLog, 'TLrun', self, 'retrain', self.arguments, trainX,
                       trainY, randomSeed=self.randomSeed)
 
+    def _retrain(self, trainX, trainY, arguments, randomSeed, has2dOutput):
+        """
+        Train with new data, modifying this object only on success.
+        """
+        backend, transformedInputs, customDict = self._interface._trainBackend(
+            self.learnerName, trainX, trainY, arguments, randomSeed)
+
+        trainYNames = None
+        if trainY is not None:
+            trainYNames = trainY.features._getNamesNoGeneration()
+
+        self.__dict__.update(
+            _backend=backend, _arguments=arguments, _randomSeed=randomSeed,
+            _transformedArguments=transformedInputs[3],
+            _customDict=customDict, _trainXShape=trainX.shape,
+            _trainYNames=trainYNames, _has2dOutput=has2dOutput, _tuning=None)
+
     @captureOutput
     def incrementalTrain(self, trainX, trainY=None, arguments=None,
                          randomSeed=None, *, useLog=None):
@@ -1523,22 +1525,36 @@ class TrainedLearner(object):
         """
         validateLearningArguments(trainX, trainY)
         randomSeed = self._interface._getValidSeed(randomSeed)
-        if arguments is not None:
-            self.arguments.update(arguments)
+        merged = {**(self._arguments or {}), **(arguments or {})}
+
+        # separate training data / labels if needed
+        if isinstance(trainY, (str, int, np.integer)):
+            trainX = trainX.copy()
+            trainY = trainX.features.extract(toExtract=trainY, useLog=False)
+
+        self._incrementalTrain(trainX, trainY, merged, randomSeed)
+
+        handleLogging(useLog, 'TLrun', self, 'incrementalTrain',
+                      self.arguments, trainX, trainY,
+                      randomSeed=self.randomSeed)
+
+    def _incrementalTrain(self, trainX, trainY, arguments, randomSeed):
+        """
+        Extend the training, only recording the arguments on success.
+        """
         transformed = self._interface._inputTransformation(
             self.learnerName, trainX, trainY, None, self._randomSeed,
-            self.arguments, self._customDict)
+            arguments, self._customDict)
         transformedTrainX = transformed[0]
         transformedTrainY = transformed[1]
         transformedArguments = transformed[3]
-        self._backend = self._interface._incrementalTrainer(
+        backend = self._interface._incrementalTrainer(
             self.learnerName, self._backend, transformedTrainX,
             transformedTrainY, transformedArguments, randomSeed,
             self._customDict)
 
-        handleLogging(useLog, 'TLrun', self, 'incrementalTrain',
-                      self.arguments, trainX, trainY,
-                      randomSeed=self.randomSeed)
+        self.__dict__.update(_backend=backend, _arguments=arguments,
+                             _transformedArguments=transformedArguments)
 
     @captureOutput
     def getAttributes(self):
-- 
2.43.0


From 58be94d0168f63db8e5701629e224f4685f683f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 031/119] fix: retraining a multi-class learner retrains all of
 its learners

---
 nimble/core/interfaces/universal_interface.py | 36 +++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index ba8deae..170aacd 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1763,6 +1763,42 @@ class TrainedLearners(TrainedLearner):
                          customDict, backend, interfaceObject, has2dOutput,
                          tuningResults, trainXShape, trainYNames, randomSeed)
 
+    def _retrain(self, trainX, trainY, arguments, randomSeed, has2dOutput):
+        new = self._interface.train(
+            self.learnerName, trainX, trainY, arguments, self.method,
+            randomSeed)
+
+        self.__dict__.update(new.__dict__)
+
+    def _incrementalTrain(self, trainX, trainY, arguments, randomSeed):
+        labels = [val for [val] in trainY.copy(to='python list')]
+        for label in labels:
+            if label not in self._labelSet:
+                msg = f'The label {label} was not in the training data. New '
+                msg += 'labels require training with all of the data'
+                raise InvalidArgumentValue(msg)
+        if self.method == 'OneVsAll':
+            for learner in self._trainedLearnersList:
+                # pylint: disable=cell-var-from-loop
+                relabeled = trainY.calculateOnElements(
+                    lambda val: int(val == learner.label), useLog=False)
+                learner._incrementalTrain(trainX, relabeled, arguments,
+                                          randomSeed)
+        else:
+            pairs = generateAllPairs(self._labelSet)
+            for learner, pair in zip(self._trainedLearnersList, pairs):
+                pts = [i for i, label in enumerate(labels) if label in pair]
+                if pts:
+                    learner._incrementalTrain(
+                        trainX.points.copy(pts, useLog=False),
+                        trainY.points.copy(pts, useLog=False), arguments,
+                        randomSeed)
+
+        first = self._trainedLearnersList[0]
+        self.__dict__.update(
+            _backend=first._backend, _arguments=arguments,
+            _transformedArguments=first._transformedArguments)
+
     @captureOutput
     def apply(self, testX, arguments=None, scoreMode=None, *, useLog=None,
               **kwarguments):
-- 
2.43.0


From 947690b2458e866acfea4dff0535ec2456c3125a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:46 +0000
Subject: [PATCH 032/119] fix: sciKitLearn learners cannot modify or keep the
 data provided

---
 nimble/core/interfaces/scikit_learn_interface.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/nimble/core/interfaces/scikit_learn_interface.py b/nimble/core/interfaces/scikit_learn_interface.py
index f8500f3..d1ddede 100644
--- a/nimble/core/interfaces/scikit_learn_interface.py
+++ b/nimble/core/interfaces/scikit_learn_interface.py
@@ -500,14 +500,12 @@ To install scikit-learn
     def _inputTransformation(self, learnerName, trainX, trainY, testX,
                              randomSeed, arguments, customDict):
 
-        mustCopyTrainX = ['PLSRegression']
+        # learners can modify or keep what they are provided so every object
+        # must be copied
         if trainX is not None:
             customDict['match'] = trainX.getTypeString()
             if trainX.shape != trainX.dimensions:
                 trainX = trainX.copy(to='numpy array')
-            elif (trainX.getTypeString() == 'Matrix'
-                    and learnerName not in mustCopyTrainX):
-                trainX = trainX._data
             elif trainX.getTypeString() == 'Sparse':
                 trainX = trainX.copy()._data
             else:
@@ -522,12 +520,8 @@ To install scikit-learn
             trainY = dtypeConvert(trainY)
 
         if testX is not None:
-            mustCopyTestX = ['StandardScaler']
             if testX.shape != testX.dimensions:
                 testX = testX.copy(to='numpy array')
-            elif (testX.getTypeString() == 'Matrix'
-                    and learnerName not in mustCopyTestX):
-                testX = testX._data
             elif testX.getTypeString() == 'Sparse':
                 testX = testX.copy()._data
             else:
-- 
2.43.0


From 620d34d671b894c5e688a9b8bcac049ed19e3b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:46 +0000
Subject: [PATCH 033/119] fix: KNNClassifier keeps its own copy of the training
 data

---
 nimble/learners/knn_classification.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nimble/learners/knn_classification.py b/nimble/learners/knn_classification.py
index bb4b428..7eac592 100644
--- a/nimble/learners/knn_classification.py
+++ b/nimble/learners/knn_classification.py
@@ -40,8 +40,9 @@ class KNNClassifier(CustomLearner):
 
     def train(self, trainX, trainY, k=5):
         self.k = k
-        self._trainX = trainX
-        self._trainY = trainY
+        # later changes to the objects provided cannot affect this learner
+        self._trainX = trainX.copy()
+        self._trainY = trainY.copy()
 
     def apply(self, testX):
         dists = self._getDistanceMatrix(testX)
-- 
2.43.0


From b81039d73f4e84a45330741e39f6f939288ddcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:46 +0000
Subject: [PATCH 034/119] fix: results of apply never share data with a custom
 learner

---
 nimble/core/interfaces/custom_learner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/interfaces/custom_learner.py b/nimble/core/interfaces/custom_learner.py
index d4fe962..f53431d 100644
--- a/nimble/core/interfaces/custom_learner.py
+++ b/nimble/core/interfaces/custom_learner.py
@@ -146,7 +146,8 @@ class CustomLearnerInterface(UniversalInterface):
                               transformedInputs, outputType, outputFormat,
                               customDict):
         if isinstance(outputValue, nimble.core.data.Base):
-            return outputValue
+            # the learner could return an object that it, or the user, keeps
+            return outputValue.copy()
 
         return nimble.data(outputValue, useLog=False)
 
-- 
2.43.0


From 51736bacbff7435aec774135617c831880702768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:33 +0000
Subject: [PATCH 035/119] fix: modifying the reported arguments does not modify
 a trained learner

---
 nimble/core/interfaces/universal_interface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 170aacd..e6f4e80 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1021,6 +1021,9 @@ class TrainedLearner(object):
         """
         The original arguments passed to the learner.
         """
+        # modifying the returned dict must not affect later (re)training
+        if isinstance(self._arguments, dict):
+            return self._arguments.copy()
         return self._arguments
 
     @property
-- 
2.43.0


From 6312306a334269ab9f6c62ef9f01af644e7c95ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:40 +0000
Subject: [PATCH 036/119] fix: hold-out validation does not name the user's
 data

---
 nimble/core/tune.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index e1c466f..4982d80 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -504,9 +504,12 @@ class HoldoutValidator(Validator):
             msg += "points"
             raise InvalidArgumentValueCombination(msg)
 
+        # must not name the objects provided by the user
         if validateX.name is None:
+            validateX = validateX.copy()
             validateX.name = "validateX"
         if validateY.name is None:
+            validateY = validateY.copy()
             validateY.name = "validateY"
 
         self.validateX = validateX
-- 
2.43.0


From e1a8bd0ddc2118d7c32500fd54be0838c84db32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:59 +0000
Subject: [PATCH 037/119] fix: fillMatching refuses results that do not align
 with the data

---
 nimble/core/learn.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nimble/core/learn.py b/nimble/core/learn.py
index 949f571..01a90cb 100644
--- a/nimble/core/learn.py
+++ b/nimble/core/learn.py
@@ -660,6 +660,13 @@ def fillMatching(learnerName, matchingElements, trainX, arguments=None,
     toFill = trainX.copy()
     toFill.features.fillMatching(np.nan, matchMatrix, useLog=False)
     filled = trainAndApply(learnerName, toFill, arguments=merged, useLog=False)
+    if filled.shape != trainX.shape:
+        # for example, a feature without any known values was removed so the
+        # elements of filled do not align with those of trainX
+        msg = f"The output of {learnerName} must have the same shape as "
+        msg += f"trainX to fill matching elements. Expected {trainX.shape}, "
+        msg += f"got {filled.shape}"
+        raise ImproperObjectAction(msg)
 
     def transformer(elem, i, j):
         if matchMatrix[i, j]:
-- 
2.43.0


From c206db5174f9211234ca264d3a884c70f1dbe2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 038/119] fix: a failing user function leaves the data
 unchanged by transformations

---
 nimble/core/data/dataframe.py     |  6 ++++++
 nimble/core/data/dataframeAxis.py |  9 ++++++++-
 nimble/core/data/features.py      | 18 ++++++++++++++----
 nimble/core/data/list.py          |  5 +++++
 nimble/core/data/listAxis.py      | 12 +++++++++---
 nimble/core/data/matrix.py        |  5 +++++
 nimble/core/data/matrixAxis.py    | 10 ++++++++++
 nimble/core/data/sparse.py        |  5 +++++
 8 files changed, 62 insertions(+), 8 deletions(-)

diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index f55d620..8933005 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -94,6 +94,8 @@ class DataFrame(Base):
     def _transform_implementation(self, toTransform, points, features):
         ids = itertools.product(range(len(self.points)),
                                 range(len(self.features)))
+        # toTransform can fail so no changes until all values are available
+        transformed = []
         for i, j in ids:
             currVal = self._data.iat[i, j]
 
@@ -106,6 +108,10 @@ class DataFrame(Base):
                 currRet = toTransform(currVal)
             else:
                 currRet = toTransform(currVal, i, j)
+
+            transformed.append((i, j, currRet))
+
+        for i, j, currRet in transformed:
             # convert datetime columns so pandas can't convert to datetimes
             if (self._data.dtypes.iloc[j].type == np.datetime64
                     and isinstance(currRet, (numbers.Number, str))):
diff --git a/nimble/core/data/dataframeAxis.py b/nimble/core/data/dataframeAxis.py
index 5074e0c..79f3410 100644
--- a/nimble/core/data/dataframeAxis.py
+++ b/nimble/core/data/dataframeAxis.py
@@ -185,6 +185,8 @@ class DataFramePoints(DataFrameAxis, Points):
                                      axis=0, ignore_index=True)
 
     def _transform_implementation(self, function, limitTo):
+        # function can fail so no changes until all results are available
+        transformed = []
         for i, pt in enumerate(self):
             if limitTo is not None and i not in limitTo:
                 continue
@@ -194,7 +196,9 @@ class DataFramePoints(DataFrameAxis, Points):
             # given nimble objects or 2d arrays
             if isinstance(currRet, Base):
                 currRet = currRet.copy("numpyarray", outputAs1D=True)
+            transformed.append((i, currRet))
 
+        for i, currRet in transformed:
             datetimeCols = [i for i, dt in enumerate(self._base._data.dtypes)
                             if dt.type == np.datetime64]
             for col in datetimeCols:
@@ -285,11 +289,14 @@ class DataFrameFeatures(DataFrameAxis, Features):
                                      axis=1, ignore_index=True)
 
     def _transform_implementation(self, function, limitTo):
+        # function can fail so no changes until all results are available
+        transformed = []
         for j, f in enumerate(self):
             if limitTo is not None and j not in limitTo:
                 continue
-            currRet = function(f)
+            transformed.append((j, function(f)))
 
+        for j, currRet in transformed:
             self._base._data[j] = currRet
 
 
diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index 0fbe027..265d0a5 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -37,7 +37,7 @@ from nimble.core.logger import handleLogging
 from nimble.exceptions import InvalidArgumentType, InvalidArgumentValue
 from nimble.exceptions import InvalidArgumentValueCombination
 from nimble._utility import prettyListString, quoteStrings
-from ._dataHelpers import limitedTo2D, prepLog
+from ._dataHelpers import limitedTo2D, prepLog, validateAxisFunction
 
 class Features(ABC):
     """
@@ -2005,13 +2005,23 @@ class Features(ABC):
             if features is not None:
                 features = list(map(self._getIndex, features))
             zipFeatures = zip(self, applyResultTo.features)
+            # function can fail or return invalid values so no changes to
+            # either object until all results are available and validated
+            normalized = []
             for i, (ft1, ft2) in enumerate(zipFeatures):
                 if features is None or i in features:
                     # pylint: disable=cell-var-from-loop
                     norm1, norm2 = function(ft1, ft2)
-                    self.transform(lambda _: norm1, features=i, useLog=False)
-                    applyResultTo.features.transform(
-                        lambda _: norm2, features=i, useLog=False)
+                    for norm, obj in [(norm1, self._base),
+                                      (norm2, applyResultTo)]:
+                        validateAxisFunction(lambda: norm, 'feature',
+                                             len(obj.points))()
+                    normalized.append((i, norm1, norm2))
+            for i, norm1, norm2 in normalized:
+                # pylint: disable=cell-var-from-loop
+                self.transform(lambda _: norm1, features=i, useLog=False)
+                applyResultTo.features.transform(
+                    lambda _: norm2, features=i, useLog=False)
         else:
             msg = 'applyResultTo must be None or an instance of Base'
             raise InvalidArgumentType(msg)
diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index ae3505d..b3fc2e6 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -139,6 +139,8 @@ class List(Base):
     def _transform_implementation(self, toTransform, points, features):
         ids = itertools.product(range(len(self.points)),
                                 range(len(self.features)))
+        # toTransform can fail so no changes until all values are available
+        transformed = []
         for i, j in ids:
             currVal = self._data[i][j]
 
@@ -152,6 +154,9 @@ class List(Base):
             else:
                 currRet = toTransform(currVal, i, j)
 
+            transformed.append((i, j, currRet))
+
+        for i, j, currRet in transformed:
             self._data[i][j] = currRet
 
     # pylint: disable=unused-argument
diff --git a/nimble/core/data/listAxis.py b/nimble/core/data/listAxis.py
index c27894f..8e76c1e 100644
--- a/nimble/core/data/listAxis.py
+++ b/nimble/core/data/listAxis.py
@@ -197,12 +197,15 @@ class ListPoints(ListAxis, Points):
         self._base._data = allData
 
     def _transform_implementation(self, function, limitTo):
+        # function can fail so no changes until all results are available
+        transformed = []
         for i, pt in enumerate(self):
             if limitTo is not None and i not in limitTo:
                 continue
-            currRet = function(pt)
+            transformed.append((i, list(function(pt))))
 
-            self._base._data[i] = list(currRet)
+        for i, currRet in transformed:
+            self._base._data[i] = currRet
 
     ################################
     # Higher Order implementations #
@@ -290,11 +293,14 @@ class ListFeatures(ListAxis, Features):
         self._base._numFeatures += len(toInsert.features)
 
     def _transform_implementation(self, function, limitTo):
+        # function can fail so no changes until all results are available
+        transformed = []
         for j, f in enumerate(self):
             if limitTo is not None and j not in limitTo:
                 continue
-            currRet = function(f)
+            transformed.append((j, list(function(f))))
 
+        for j, currRet in transformed:
             for i in range(len(self._base.points)):
                 self._base._data[i][j] = currRet[i]
 
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 873f77a..6ca5cf1 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -88,6 +88,8 @@ class Matrix(Base):
     def _transform_implementation(self, toTransform, points, features):
         ids = itertools.product(range(len(self.points)),
                                 range(len(self.features)))
+        # toTransform can fail so no changes until all values are available
+        transformed = []
         for i, j in ids:
             currVal = self._data[i, j]
 
@@ -101,6 +103,9 @@ class Matrix(Base):
             else:
                 currRet = toTransform(currVal, i, j)
 
+            transformed.append((i, j, currRet))
+
+        for i, j, currRet in transformed:
             self._data = modifyNumpyArrayValue(self._data, (i, j), currRet)
 
     # pylint: disable=unused-argument
diff --git a/nimble/core/data/matrixAxis.py b/nimble/core/data/matrixAxis.py
index 4b3c33a..8f2185e 100644
--- a/nimble/core/data/matrixAxis.py
+++ b/nimble/core/data/matrixAxis.py
@@ -178,11 +178,16 @@ class MatrixPoints(MatrixAxis, Points):
             (startData, toInsert._data, endData), 0)
 
     def _transform_implementation(self, function, limitTo):
+        # function can fail so no changes until all results are available
+        transformed = []
         for i, pt in enumerate(self):
             if limitTo is not None and i not in limitTo:
                 continue
             currRet = function(pt)
             retArray = np.array(currRet, dtype=function.convertType)
+            transformed.append((i, retArray))
+
+        for i, retArray in transformed:
             self._convertBaseDtype(retArray.dtype)
             self._base._data[i, :] = retArray
         # if transformations applied to all data and function.convertType is
@@ -253,11 +258,16 @@ class MatrixFeatures(MatrixAxis, Features):
             (startData, toInsert._data, endData), 1)
 
     def _transform_implementation(self, function, limitTo):
+        # function can fail so no changes until all results are available
+        transformed = []
         for j, f in enumerate(self):
             if limitTo is not None and j not in limitTo:
                 continue
             currRet = function(f)
             retArray = np.array(currRet, dtype=function.convertType)
+            transformed.append((j, retArray))
+
+        for j, retArray in transformed:
             self._convertBaseDtype(retArray.dtype)
             self._base._data[:, j] = retArray
         # if transformations applied to all data and function.convertType is
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index ef3b93d..6698350 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -179,6 +179,8 @@ class Sparse(Base):
 
     def _transformEachElement_zeroPreserve_implementation(
             self, toTransform, points, features):
+        # toTransform can fail so no changes until all values are available
+        transformed = []
         for index, val in enumerate(self._data.data):
             pID = self._data.row[index]
             fID = self._data.col[index]
@@ -192,6 +194,9 @@ class Sparse(Base):
             else:
                 currRet = toTransform(val, pID, fID)
 
+            transformed.append((index, currRet))
+
+        for index, currRet in transformed:
             self._data.data = modifyNumpyArrayValue(self._data.data, index,
                                                     currRet)
 
-- 
2.43.0


From 62bf29324b1f68b5ec9c5a460085145bfaa77c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 039/119] fix: splitByCollapsingFeatures keeps data types with
 their features in DataFrame

---
 nimble/core/data/dataframeAxis.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/nimble/core/data/dataframeAxis.py b/nimble/core/data/dataframeAxis.py
index 79f3410..1951d79 100644
--- a/nimble/core/data/dataframeAxis.py
+++ b/nimble/core/data/dataframeAxis.py
@@ -217,13 +217,9 @@ class DataFramePoints(DataFrameAxis, Points):
         collapseData = self._base._asNumpyArray()[:, collapseIndices]
         retainData = self._base._asNumpyArray()[:, retainIndices]
 
-        collapseDtypes = (np.dtype(object), max(self._base._data.dtypes))
-        dtypes = []
-        for i in range(len(self._base.features)):
-            if i in retainIndices:
-                dtypes.append(self._base._data.dtypes.iloc[i])
-            elif i == collapseIndices[0]:
-                dtypes.extend(collapseDtypes)
+        # retained features are followed by the names and the values
+        dtypes = [self._base._data.dtypes.iloc[i] for i in retainIndices]
+        dtypes.extend((np.dtype(object), collapseData.dtype))
 
         tmpData = fillArrayWithCollapsedFeatures(
             featuresToCollapse, retainData, collapseData, currNumPoints,
-- 
2.43.0


From 42b69843e3c74b8e8e5e435d918b977c6d2848d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 040/119] fix: splitByParsing checks the names before modifying
 the data

---
 nimble/core/data/features.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index 265d0a5..d2cb0cd 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -2196,12 +2196,21 @@ class Features(ABC):
         featureIndex = self.getIndex(feature)
         numRetFeatures = len(self) - 1 + numResultingFts
 
-        self._splitByParsing_implementation(featureIndex, splitList,
-                                            numRetFeatures, numResultingFts)
-
         fNames = self.getNames()[:featureIndex]
         fNames.extend(resultingNames)
         fNames.extend(self.getNames()[featureIndex + 1:])
+        # invalid names must be identified before modifying the data
+        if not all(n is None or isinstance(n, str) for n in fNames):
+            raise InvalidArgumentValue("Names must be strings")
+        named = [n for n in fNames if n is not None]
+        if len(named) != len(set(named)):
+            msg = "resultingNames would result in duplicate feature names: "
+            msg += f"{fNames}"
+            raise InvalidArgumentValue(msg)
+
+        self._splitByParsing_implementation(featureIndex, splitList,
+                                            numRetFeatures, numResultingFts)
+
         self._base._dims[1] = numRetFeatures
         self.setNames(fNames, useLog=False)
 
-- 
2.43.0


From 8bdc5ffa50f656070b3df46a233fe4e8667f2e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 041/119] fix: fillMatching pairs matches with their own points
 when limited to an unordered subset

---
 nimble/core/data/axis.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 636551e..c74f588 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -771,13 +771,12 @@ class Axis(ABC):
 
         # if matchingElements is a boolean matrix we need to provide the
         # corresponding boolean vector for the vector passed to _transform
-        try:
-            idxOrder = iter(limitTo)
-        except TypeError:
-            if limitTo is None:
-                idxOrder = iter(range(len(self)))
-            else: # limitTo is a single identifier
-                idxOrder = iter([self._getIndex(limitTo)])
+        if limitTo is None:
+            idxOrder = iter(range(len(self)))
+        else:
+            limitTo = constructIndicesList(self._base, self._axis, limitTo)
+            # _transform visits in index order, not in the order of limitTo
+            idxOrder = iter(sorted(set(limitTo)))
 
         @functools.wraps(fillFunc)
         def fillFunction(vector):
-- 
2.43.0


From 37edb1b16e31dd0f83bb063a21b0b5cabfe33cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 042/119] fix: sorting by several identifiers only reorders
 once all are valid

---
 nimble/core/data/axis.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index c74f588..cf3c504 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1260,17 +1260,16 @@ class Axis(ABC):
         self._permute(sorted(self._getNames(), reverse=reverse))
 
     def _sortByIdentifier(self, index, reverse):
-        if isinstance(index, list):
-            for idx in index[::-1]:
-                self._sortByIdentifier(idx, reverse)
-        else:
+        indices = index if isinstance(index, list) else [index]
+        # find the final order before modifying the object
+        order = list(range(len(self)))
+        for idx in indices[::-1]:
             if self._axis == 'point':
-                data = self._base.features[index]
+                data = list(self._base.features[idx])
             else:
-                data = self._base.points[index]
-            sortedIndex = sorted(enumerate(data), key=operator.itemgetter(1),
-                                 reverse=reverse)
-            self._permute((val[0] for val in sortedIndex))
+                data = list(self._base.points[idx])
+            order.sort(key=data.__getitem__, reverse=reverse)
+        self._permute(order)
 
     def _sortByFunction(self, func, reverse):
         sortedData = sorted(enumerate(self), key=lambda x: func(x[1]),
-- 
2.43.0


From 62dcc29a8f18db89edbb27339f372f0d78611ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:42 +0000
Subject: [PATCH 043/119] fix: transformFeatureToIntegers gives all missing
 values one integer

---
 nimble/core/data/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 9a219ce..5158038 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -656,6 +656,9 @@ class Base(ABC):
             integerValue = 0
             mapped = []
             for val in ft:
+                if val != val:
+                    # the same object so that all nan share one integer
+                    val = np.nan
                 if val in mapping:
                     mapped.append(mapping[val])
                 elif val == 0:
-- 
2.43.0


From b7035325e37141e9783bb829122271b1e2b63337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:42 +0000
Subject: [PATCH 044/119] fix: replaceRectangle uses the shape of its
 replacement and keeps its values

---
 nimble/core/data/base.py   | 9 ++++++++-
 nimble/core/data/matrix.py | 9 +++++++--
 nimble/core/data/sparse.py | 7 +++++++
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 5158038..ca76395 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -3991,7 +3991,7 @@ class Base(ABC):
                         start=pointStart, end=pointEnd, rangeLen=prange)
                     raise InvalidArgumentValueCombination(msg)
             if featureEnd is None:
-                feIndex = fsIndex + len(replaceWith.points) - 1
+                feIndex = fsIndex + len(replaceWith.features) - 1
             else:
                 feIndex = self.features.getIndex(featureEnd)
                 frange = (feIndex - fsIndex) + 1
@@ -4000,6 +4000,13 @@ class Base(ABC):
                         axis='feature', axisLen=len(replaceWith.features),
                         start=featureStart, end=featureEnd, rangeLen=frange)
                     raise InvalidArgumentValueCombination(msg)
+            if peIndex >= len(self.points) or feIndex >= len(self.features):
+                msg = "replaceWith extends beyond this object. When beginning "
+                msg += f"at point {psIndex} and feature {fsIndex} it would "
+                msg += f"end at point {peIndex} and feature {feIndex}, but "
+                msg += f"this object has {len(self.points)} points and "
+                msg += f"{len(self.features)} features"
+                raise InvalidArgumentValueCombination(msg)
             if replaceWith.getTypeString() != self.getTypeString():
                 replaceWith = replaceWith.copy(to=self.getTypeString())
         elif looksNumeric(replaceWith):
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 6ca5cf1..de32551 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -230,11 +230,16 @@ class Matrix(Base):
     def _replaceRectangle_implementation(self, replaceWith, pointStart,
                                          featureStart, pointEnd, featureEnd):
         if not isinstance(replaceWith, Base):
-            values = replaceWith * np.ones((pointEnd - pointStart + 1,
-                                            featureEnd - featureStart + 1))
+            values = np.full((pointEnd - pointStart + 1,
+                              featureEnd - featureStart + 1), replaceWith)
         else:
             values = replaceWith._data
 
+        # values could require a different dtype
+        dtype = np.result_type(self._data.dtype, values.dtype)
+        if self._data.dtype != dtype:
+            self._data = self._data.astype(dtype)
+
         # numpy is exclusive
         pointEnd += 1
         featureEnd += 1
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 6698350..d07476a 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -426,6 +426,13 @@ class Sparse(Base):
         # _replaceRectangle_zeros_implementation; unnecessary for that helper
         self._sortInternal('point', setIndices=True)
 
+        # new values could require a different dtype
+        newDtype = np.array(replaceWith if constant
+                            else replaceWith._data.data).dtype
+        dtype = np.result_type(self._data.data.dtype, newDtype)
+        if self._data.data.dtype != dtype:
+            self._data.data = self._data.data.astype(dtype)
+
         selfIdx = 0
         valsIdx = 0
         copyIndex = 0
-- 
2.43.0


From ae1026c1a16f09df3107a159c4f3d892cd9b682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:42 +0000
Subject: [PATCH 045/119] fix: setting an item does not truncate the value to
 the type of the data

---
 nimble/core/data/matrix.py | 3 ++-
 nimble/core/data/sparse.py | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index de32551..3ad3f71 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -411,7 +411,8 @@ class Matrix(Base):
         return self._data[x, y]
     
     def _setitem_implementation(self, x, y, value):
-        self._data[x, y] = value
+        # could require a different dtype
+        self._data = modifyNumpyArrayValue(self._data, (x, y), value)
 
     def _view_implementation(self, pointStart, pointEnd, featureStart,
                              featureEnd, dropDimension):
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index d07476a..f85b507 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -858,7 +858,9 @@ class Sparse(Base):
             k = np.searchsorted(offAxis[start:end], offAxisVal) + start
             if k < end and offAxis[k] == offAxisVal:
                 if value != 0:
-                    self._data.data[k] = value  # Update existing entry
+                    # Update existing entry; could require a different dtype
+                    self._data.data = modifyNumpyArrayValue(
+                        self._data.data, k, value)
                 else:
                     # Remove entry if value is zero (maintain sparsity)
                     self._data.data = np.delete(self._data.data, k)
-- 
2.43.0


From 73f833c4219f21040bb8f976a6f8b94bf3d87cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:42 +0000
Subject: [PATCH 046/119] fix: a failing replaceFeatureWithBinaryFeatures
 leaves the data unchanged

---
 nimble/core/data/base.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index ca76395..81cbc4e 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -572,7 +572,8 @@ class Base(ABC):
 
         index = self.features.getIndex(featureToReplace)
 
-        replace = self.features.extract([index], useLog=False)
+        # a copy because this object is not modified until all else succeeds
+        replace = self.features.copy([index], useLog=False)
 
         uniqueVals = replace.countUniqueElements().keys()
         uniqueIdx = {key: i for i, key in enumerate(uniqueVals)}
@@ -592,12 +593,9 @@ class Base(ABC):
             ftNames.append(prefix + str(val))
         binaryObj.features.setNames(ftNames, useLog=False)
 
-        # must use append if the object is now feature empty
-        if len(self.features) == 0:
-            self.features.append(binaryObj, useLog=False)
-        else:
-            # insert data at same index of the original feature
-            self.features.insert(index, binaryObj, useLog=False)
+        # insert data after the original feature, which is then removed
+        self.features.insert(index + 1, binaryObj, useLog=False)
+        self.features.delete(index, useLog=False)
 
         return ftNames
 
-- 
2.43.0


From d4021d8e6c35de402b472752e3da000c6373786f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:42 +0000
Subject: [PATCH 047/119] fix: a failing merge leaves the data unchanged

---
 nimble/core/data/base.py      | 11 +++++++++-
 nimble/core/data/dataframe.py | 41 +++++++++++++++++++----------------
 nimble/core/data/list.py      | 28 ++++++++++++------------
 nimble/core/data/matrix.py    | 18 +++++++--------
 4 files changed, 55 insertions(+), 43 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 81cbc4e..f971060 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4700,7 +4700,12 @@ class Base(ABC):
                 msg += f'that each {axis} is equal between the two objects'
                 raise InvalidArgumentValue(msg)
 
-            self._genericMergeFrontend(tmpOther, point, feature, onFeature)
+            try:
+                self._genericMergeFrontend(tmpOther, point, feature, onFeature)
+            except BaseException:
+                # undo the temporary names
+                lAxis.setNames(lNames, useLog=False)
+                raise
 
             # only reset names if we did not generate them
             if lNames is None and rNames is None:
@@ -4753,6 +4758,10 @@ class Base(ABC):
 
         if self.getTypeString() != other.getTypeString():
             other = other.copy(to=self.getTypeString())
+        if point == 'union' and onFeature is not None:
+            # the merged points will be sorted by onFeature so verify the
+            # values can be sorted before modifying this object
+            sorted(itertools.chain(self[:, onFeature], other[:, onFeature]))
         self._merge_implementation(other, point, feature, onFeature,
                                    matchingFtIdx)
 
diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index 8933005..7881321 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -346,46 +346,48 @@ class DataFrame(Base):
             point = 'outer'
         elif point == 'intersection':
             point = 'inner'
+        # this object is not modified until the merge is successful
+        data = self._data.copy(deep=False)
         if self.features._namesCreated():
-            self._data.columns = self.features.getNames()
+            data.columns = self.features.getNames()
         tmpDfR = other._data.copy()
         if other.features._namesCreated():
             tmpDfR.columns = other.features.getNames()
 
         if feature == 'intersection':
-            self._data = self._data.iloc[:, matchingFtIdx[0]]
+            data = data.iloc[:, matchingFtIdx[0]]
             tmpDfR = tmpDfR.iloc[:, matchingFtIdx[1]]
-            matchingFtIdx[0] = list(range(self._data.shape[1]))
+            matchingFtIdx[0] = list(range(data.shape[1]))
             matchingFtIdx[1] = list(range(tmpDfR.shape[1]))
         elif feature == "left":
             tmpDfR = tmpDfR.iloc[:, matchingFtIdx[1]]
             matchingFtIdx[1] = list(range(tmpDfR.shape[1]))
 
-        numColsL = len(self._data.columns)
+        numColsL = len(data.columns)
         if onFeature is None:
             if (self.points._namesCreated()
                     and other.points._namesCreated()):
                 # differentiate default names between objects using integers
-                self._data.index = [i if n is None else n for i, n
+                data.index = [i if n is None else n for i, n
                                     in enumerate(self.points.getNames())]
                 maxL = len(self.points)
                 tmpDfR.index = [i + maxL if n is None else n for i, n
                                 in enumerate(other.points.getNames())]
             else:
-                # left guaranteed equiv to pd.RangeIndex(self._data.shape[0])
+                # left guaranteed equiv to pd.RangeIndex(data.shape[0])
                 idxRange = range(self.shape[0], self.shape[0] + other.shape[0])
                 tmpDfR.index = list(idxRange)
 
-            self._data = self._data.merge(tmpDfR, how=point, left_index=True,
+            data = data.merge(tmpDfR, how=point, left_index=True,
                                           right_index=True)
         else:
-            onIdxL = self._data.columns.get_loc(onFeature)
+            onIdxL = data.columns.get_loc(onFeature)
             onIdxR = tmpDfR.columns.get_loc(onFeature) + numColsL
-            self._data = self._data.merge(tmpDfR, how=point, on=onFeature)
+            data = data.merge(tmpDfR, how=point, on=onFeature)
 
         # return labels to default after we've executed the merge
-        self._data.index = pd.RangeIndex(self._data.shape[0])
-        self._data.columns = pd.RangeIndex(self._data.shape[1])
+        data.index = pd.RangeIndex(data.shape[0])
+        data.columns = pd.RangeIndex(data.shape[1])
 
         toDrop = []
         for left, right in zip(matchingFtIdx[0], matchingFtIdx[1]):
@@ -397,26 +399,27 @@ class DataFrame(Base):
                 # one less to account for merged onFeature
                 right -= 1
 
-            matches = self._data.iloc[:, left] == self._data.iloc[:, right]
-            nansL = np.array([x != x for x in self._data.iloc[:, left]])
-            nansR = np.array([x != x for x in self._data.iloc[:, right]])
+            matches = data.iloc[:, left] == data.iloc[:, right]
+            nansL = np.array([x != x for x in data.iloc[:, left]])
+            nansR = np.array([x != x for x in data.iloc[:, right]])
             acceptableValues = matches | nansL | nansR
             if not all(acceptableValues):
                 msg = "The objects contain different values for the same "
                 msg += "feature"
                 raise InvalidArgumentValue(msg)
             if nansL.any():
-                leftNansLocInRight = self._data.iloc[:, right][nansL]
-                self._data.iloc[:, left][nansL] = leftNansLocInRight
+                leftNansLocInRight = data.iloc[:, right][nansL]
+                data.iloc[:, left][nansL] = leftNansLocInRight
             toDrop.append(right)
 
         if toDrop:
-            self._data.drop(toDrop, axis=1, inplace=True)
-            self._data.columns = pd.RangeIndex(self._data.shape[1])
+            data.drop(toDrop, axis=1, inplace=True)
+            data.columns = pd.RangeIndex(data.shape[1])
 
         numFeatures = (numColsL + len(tmpDfR.columns) - len(matchingFtIdx[1]))
-        numPoints = len(self._data.index)
+        numPoints = len(data.index)
 
+        self._data = data
         self._dims = [numPoints, numFeatures]
 
     def _replaceFeatureWithBinaryFeatures_implementation(self, uniqueIdx):
diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index b3fc2e6..8af51ab 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -381,6 +381,8 @@ class List(Base):
 
     def _merge_implementation(self, other, point, feature, onFeature,
                               matchingFtIdx):
+        # this object is not modified until the merge is successful
+        left = [list(pt) for pt in self._data]
         if onFeature is not None:
             if feature in ["intersection", "left"]:
                 onFeatureIdx = self.features.getIndex(onFeature)
@@ -395,11 +397,11 @@ class List(Base):
                 else:
                     matchingFtIdx[1] = []
                 if feature == "intersection":
-                    self._data = [[row[i] for i in matchingFtIdx[0]]
-                                  for row in self._data]
+                    left = [[row[i] for i in matchingFtIdx[0]]
+                                  for row in left]
                     # matching indices in left were sorted when slicing above
-                    if len(self._data) > 0:
-                        matchingFtIdx[0] = list(range(len(self._data[0])))
+                    if len(left) > 0:
+                        matchingFtIdx[0] = list(range(len(left[0])))
                     else:
                         matchingFtIdx[0] = []
             else:
@@ -410,7 +412,6 @@ class List(Base):
             # using pointNames, prepend pointNames to left and right lists
             onIdxL = 0
             onIdxR = 0
-            left = []
             right = []
 
             def ptNameGetter(obj, idx, add=0):
@@ -421,11 +422,11 @@ class List(Base):
                 return idx + add
 
             if feature == "intersection":
-                for i, pt in enumerate(self._data):
+                for i, pt in enumerate(left):
                     ptL = [ptNameGetter(self, i)]
                     intersect = [val for idx, val in enumerate(pt)
                                  if idx in matchingFtIdx[0]]
-                    self._data[i] = ptL + intersect
+                    left[i] = ptL + intersect
                 for i, pt in enumerate(other._data):
                     maxL = len(self.points)
                     ptR = [ptNameGetter(other, i, maxL)]
@@ -433,15 +434,15 @@ class List(Base):
                     right.append(ptR)
                 # matching indices were sorted above
                 # this also accounts for prepended column
-                if len(self._data) > 0:
-                    matchingFtIdx[0] = list(range(len(self._data[0])))
+                if len(left) > 0:
+                    matchingFtIdx[0] = list(range(len(left[0])))
                 else:
                     matchingFtIdx[0] = []
                 matchingFtIdx[1] = matchingFtIdx[0]
             elif feature == "left":
-                for i, pt in enumerate(self._data):
+                for i, pt in enumerate(left):
                     ptL = [ptNameGetter(self, i)]
-                    self._data[i] = ptL + pt
+                    left[i] = ptL + pt
                 for i, pt in enumerate(other._data):
                     maxL = len(self.points)
                     ptR = [ptNameGetter(other, i, maxL)]
@@ -454,9 +455,9 @@ class List(Base):
                 # this also accounts for prepended column
                 matchingFtIdx[1] = list(range(len(right[0])))
             else:
-                for i, pt in enumerate(self._data):
+                for i, pt in enumerate(left):
                     ptL = [ptNameGetter(self, i)]
-                    self._data[i] = ptL + pt
+                    left[i] = ptL + pt
                 for i, pt in enumerate(other._data):
                     maxL = len(self.points)
                     ptR = [ptNameGetter(other, i, maxL)]
@@ -466,7 +467,6 @@ class List(Base):
                 matchingFtIdx[0].insert(0, 0)
                 matchingFtIdx[1] = list(map(lambda x: x + 1, matchingFtIdx[1]))
                 matchingFtIdx[1].insert(0, 0)
-        left = self._data
 
         matched = []
         merged = []
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 3ad3f71..c9bfe60 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -256,7 +256,8 @@ class Matrix(Base):
 
     def _merge_implementation(self, other, point, feature, onFeature,
                               matchingFtIdx):
-        self._data = np.array(self._data, dtype=np.object_)
+        # this object is not modified until the merge is successful
+        left = np.array(self._data, dtype=np.object_)
         otherArr = np.array(other._data, dtype=np.object_)
         if onFeature is not None:
             if feature in ["intersection", "left"]:
@@ -268,9 +269,9 @@ class Matrix(Base):
                 # matching indices in right were sorted when slicing above
                 matchingFtIdx[1] = list(range(right.shape[1]))
                 if feature == "intersection":
-                    self._data = self._data[:, matchingFtIdx[0]]
+                    left = left[:, matchingFtIdx[0]]
                     # matching indices in left were sorted when slicing above
-                    matchingFtIdx[0] = list(range(self._data.shape[1]))
+                    matchingFtIdx[0] = list(range(left.shape[1]))
             else:
                 onIdxL = self.features.getIndex(onFeature)
                 onIdxR = other.features.getIndex(onFeature)
@@ -305,16 +306,16 @@ class Matrix(Base):
                 ptsR = np.array(range(len(other.points)), dtype=np.object_)
                 ptsR = ptsR.reshape(-1, 1)
             if feature == "intersection":
-                concatL = (ptsL, self._data[:, matchingFtIdx[0]])
-                self._data = np.concatenate(concatL, axis=1)
+                concatL = (ptsL, left[:, matchingFtIdx[0]])
+                left = np.concatenate(concatL, axis=1)
                 concatR = (ptsR, otherArr[:, matchingFtIdx[1]])
                 right = np.concatenate(concatR, axis=1)
                 # matching indices were sorted when slicing above
                 # this also accounts for prepended column
-                matchingFtIdx[0] = list(range(self._data.shape[1]))
+                matchingFtIdx[0] = list(range(left.shape[1]))
                 matchingFtIdx[1] = matchingFtIdx[0]
             elif feature == "left":
-                self._data = np.concatenate((ptsL, self._data), axis=1)
+                left = np.concatenate((ptsL, left), axis=1)
                 concatR = (ptsR, otherArr[:, matchingFtIdx[1]])
                 right = np.concatenate(concatR, axis=1)
                 # account for new column in matchingFtIdx
@@ -324,14 +325,13 @@ class Matrix(Base):
                 # this also accounts for prepended column
                 matchingFtIdx[1] = list(range(right.shape[1]))
             else:
-                self._data = np.concatenate((ptsL, self._data), axis=1)
+                left = np.concatenate((ptsL, left), axis=1)
                 right = np.concatenate((ptsR, otherArr), axis=1)
                 # account for new column in matchingFtIdx
                 matchingFtIdx[0] = list(map(lambda x: x + 1, matchingFtIdx[0]))
                 matchingFtIdx[0].insert(0, 0)
                 matchingFtIdx[1] = list(map(lambda x: x + 1, matchingFtIdx[1]))
                 matchingFtIdx[1].insert(0, 0)
-        left = self._data
 
         matched = []
         merged = []
-- 
2.43.0


From 9502eacfc3a5b60a38708d9e519bea34af05cd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:42 +0000
Subject: [PATCH 048/119] fix: Sparse does not consider data sorted after its
 entries were replaced

---
 nimble/core/data/sparse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index f85b507..701722a 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -203,6 +203,7 @@ class Sparse(Base):
         if all(issubclass(type(d), numbers.Number) for d in self._data.data):
             self._data.data = np.array(list(self._data.data))
         self._data.eliminate_zeros()
+        self._resetSorted()
 
     def _calculate_implementation(self, function, points, features,
                                   preserveZeros):
@@ -620,6 +621,7 @@ class Sparse(Base):
         shape = (len(self.points), len(self.features))
         self._data = scipy.sparse.coo_matrix((newData, (newRow, newCol)),
                                              shape)
+        self._resetSorted()
 
     def _merge_implementation(self, other, point, feature, onFeature,
                               matchingFtIdx):
@@ -1150,6 +1152,7 @@ class Sparse(Base):
         else:
             raw = scipy.sparse.coo_matrix(raw, shape=self._data.shape)
         target._data = raw
+        target._resetSorted()
         return target
 
     def _genericPow_implementation(self, opName, other):
@@ -1190,6 +1193,7 @@ class Sparse(Base):
         ret = self._binaryOperations_implementation(trueDiv, other)
         ret._data.data = np.floor(ret._data.data)
         ret._data.eliminate_zeros()
+        ret._resetSorted()
         return ret
 
     def _genericMod_implementation(self, opName, other):
@@ -1232,6 +1236,7 @@ class Sparse(Base):
         coo.eliminate_zeros() # remove any zeros introduced into data
         if opName.startswith('__i'):
             self._data = coo
+            self._resetSorted()
             return self
         return Sparse(coo)
 
-- 
2.43.0


From b86c0bf4ce87d6fc22f4d95451394d750b9f6ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 049/119] fix: splitByCollapsingFeatures keeps the types of the
 values in List

---
 nimble/core/data/listAxis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/listAxis.py b/nimble/core/data/listAxis.py
index 8e76c1e..6aee649 100644
--- a/nimble/core/data/listAxis.py
+++ b/nimble/core/data/listAxis.py
@@ -226,9 +226,11 @@ class ListPoints(ListAxis, Points):
             collapseData.append(collapseFeatures)
             retainData.append(retainFeatures)
 
+        # object dtype prevents numpy from converting values to a common type
         tmpData = fillArrayWithCollapsedFeatures(
-            featuresToCollapse, retainData, np.array(collapseData),
-            currNumPoints, currFtNames, numRetPoints, numRetFeatures)
+            featuresToCollapse, np.array(retainData, dtype=np.object_),
+            np.array(collapseData, dtype=np.object_), currNumPoints,
+            currFtNames, numRetPoints, numRetFeatures)
 
         self._base._data = tmpData.tolist()
         self._base._numFeatures = numRetFeatures
-- 
2.43.0


From a2e3649c2aa457de8247afb6440f16a052b90f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 050/119] fix: names are checked before the data is reshaped

---
 nimble/core/data/_dataHelpers.py | 13 ++++++++++
 nimble/core/data/features.py     | 10 ++------
 nimble/core/data/points.py       | 42 ++++++++++++++++++--------------
 3 files changed, 39 insertions(+), 26 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index a1c9364..fed8152 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -333,6 +333,19 @@ def constructIndicesList(obj, axis, values, argName=None):
 
     return indicesList
 
+def validateNewNames(names, axis):
+    """
+    Verify names can be set for an axis before the data is modified.
+    """
+    nonDefault = [name for name in names if name is not None]
+    if not all(isinstance(name, str) for name in nonDefault):
+        raise InvalidArgumentValue("Names must be strings")
+    if len(nonDefault) != len(set(nonDefault)):
+        duplicates = {n for n in nonDefault if nonDefault.count(n) > 1}
+        msg = f"This operation would create duplicate {axis} names: "
+        msg += ", ".join(map(repr, sorted(duplicates)))
+        raise InvalidArgumentValue(msg)
+
 def fillArrayWithCollapsedFeatures(featuresToCollapse, retainData,
                                    collapseData, currNumPoints, currFtNames,
                                    numRetPoints, numRetFeatures):
diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index d2cb0cd..ce38835 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -38,6 +38,7 @@ from nimble.exceptions import InvalidArgumentType, InvalidArgumentValue
 from nimble.exceptions import InvalidArgumentValueCombination
 from nimble._utility import prettyListString, quoteStrings
 from ._dataHelpers import limitedTo2D, prepLog, validateAxisFunction
+from ._dataHelpers import validateNewNames
 
 class Features(ABC):
     """
@@ -2199,14 +2200,7 @@ class Features(ABC):
         fNames = self.getNames()[:featureIndex]
         fNames.extend(resultingNames)
         fNames.extend(self.getNames()[featureIndex + 1:])
-        # invalid names must be identified before modifying the data
-        if not all(n is None or isinstance(n, str) for n in fNames):
-            raise InvalidArgumentValue("Names must be strings")
-        named = [n for n in fNames if n is not None]
-        if len(named) != len(set(named)):
-            msg = "resultingNames would result in duplicate feature names: "
-            msg += f"{fNames}"
-            raise InvalidArgumentValue(msg)
+        validateNewNames(fNames, 'feature')
 
         self._splitByParsing_implementation(featureIndex, splitList,
                                             numRetFeatures, numResultingFts)
diff --git a/nimble/core/data/points.py b/nimble/core/data/points.py
index 64b8f6c..a3d4515 100644
--- a/nimble/core/data/points.py
+++ b/nimble/core/data/points.py
@@ -32,7 +32,7 @@ from collections import OrderedDict
 
 import nimble
 from nimble.exceptions import ImproperObjectAction
-from ._dataHelpers import limitedTo2D, prepLog
+from ._dataHelpers import limitedTo2D, prepLog, validateNewNames
 
 class Points(ABC):
     """
@@ -1989,20 +1989,26 @@ class Points(ABC):
         numRetPoints = len(self) * numCollapsed
         numRetFeatures = len(features) - numCollapsed + 2
 
+        # new names must be valid before the data is modified
+        ftNames = [features.getName(idx) for idx in retainIndices]
+        ftNames.extend([featureForNames, featureForValues])
+        validateNewNames(ftNames, 'feature')
+        ptNames = None
+        if self._base.points._namesCreated():
+            ptNames = []
+            for name in self.getNames():
+                for i in range(numCollapsed):
+                    ptNames.append(None if name is None else f"{name}_{i}")
+            validateNewNames(ptNames, 'point')
+
         self._splitByCollapsingFeatures_implementation(
             featuresToCollapse, collapseIndices, retainIndices,
             currNumPoints, currFtNames, numRetPoints, numRetFeatures)
 
         self._base._dims = [numRetPoints, numRetFeatures]
-        ftNames = [features.getName(idx) for idx in retainIndices]
-        ftNames.extend([featureForNames, featureForValues])
         features.setNames(ftNames, useLog=False)
-        if self._base.points._namesCreated():
-            appendedPts = []
-            for name in self.getNames():
-                for i in range(numCollapsed):
-                    appendedPts.append(f"{name}_{i}")
-            self.setNames(appendedPts, useLog=False)
+        if ptNames is not None:
+            self.setNames(ptNames, useLog=False)
 
 
     @limitedTo2D
@@ -2176,11 +2182,6 @@ class Points(ABC):
             for i in adjust:
                 prefixes[i] += '(' + type(uniqueNames[i]).__name__ + ')'
 
-        self._combineByExpandingFeatures_implementation(
-            unique, namesIdx, valuesIdx, uniqueNames, numRetFeatures)
-
-        self._base._dims = [len(unique), numRetFeatures]
-
         newFtNames = []
         for prefix in prefixes:
             # if only one feature is expanded we will use the unique values
@@ -2201,11 +2202,16 @@ class Points(ABC):
         if self._base.features._namesCreated():
             origFts = self._base.features.getNames()
             keptFts = [origFts[i] for i in uncombinedIdx]
-            fNames = keptFts[:namesIdx] + newFtNames + keptFts[namesIdx:]
-            self._base.features.setNames(fNames, useLog=False)
         else:
-            for i, name in enumerate(newFtNames):
-                self._base.features.setNames( name, oldIdentifiers=namesIdx + i, useLog=False)
+            keptFts = [None] * len(uncombinedIdx)
+        fNames = keptFts[:namesIdx] + newFtNames + keptFts[namesIdx:]
+        validateNewNames(fNames, 'feature')
+
+        self._combineByExpandingFeatures_implementation(
+            unique, namesIdx, valuesIdx, uniqueNames, numRetFeatures)
+
+        self._base._dims = [len(unique), numRetFeatures]
+        self._base.features.setNames(fNames, useLog=False)
         if self._base.points._namesCreated():
             self.setNames(pNames, useLog=False)
 
-- 
2.43.0


From 3cc0bd67564cc4fe132db3712b113ca01e097301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 051/119] fix: combineByExpandingFeatures keeps missing values
 in DataFrame

---
 nimble/core/data/dataframeAxis.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/nimble/core/data/dataframeAxis.py b/nimble/core/data/dataframeAxis.py
index 1951d79..0eed0dc 100644
--- a/nimble/core/data/dataframeAxis.py
+++ b/nimble/core/data/dataframeAxis.py
@@ -241,11 +241,16 @@ class DataFramePoints(DataFrameAxis, Points):
                                                 uniqueNames, numRetFeatures,
                                                 len(valuesIdx))
 
-        self._base._data = pd.DataFrame(tmpData)
-        if tuple(self._base._data.dtypes) != tuple(dtypes):
-            for (i, col), dtype in zip(self._base._data.items(), dtypes):
-                if col.dtype !=  dtype:
-                    self._base._data[i] = col.astype(dtype)
+        data = pd.DataFrame(tmpData)
+        for (i, col), dtype in zip(data.items(), dtypes):
+            # missing values can only be present in float and object dtypes
+            if dtype.kind in 'iu' and col.isnull().any():
+                dtype = np.dtype(float)
+            elif dtype.kind == 'b' and col.isnull().any():
+                dtype = np.dtype(object)
+            if col.dtype !=  dtype:
+                data[i] = col.astype(dtype)
+        self._base._data = data
 
 
 class DataFramePointsView(PointsView, DataFramePoints):
-- 
2.43.0


From 3be43d40a88bd6d5c09ef289dad74422fe9c7470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 052/119] fix: calculateOnElements with preserveZeros limited
 to some points or features

---
 nimble/core/data/sparse.py | 55 +++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 701722a..f6e7d14 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -21,6 +21,7 @@ coo_matrix.
 """
 
 import warnings
+from collections import defaultdict
 import numbers
 
 import numpy as np
@@ -214,34 +215,38 @@ class Sparse(Base):
         else:
             # initiate generic implementation for view types
             preserveZeros = False
-        # all data
-        if preserveZeros and points is None and features is None:
-            try:
-                data = function(data)
-            except Exception: # pylint: disable=broad-except
-                function.otypes = [np.object_]
-                data = function(data)
-            shape = self._data.shape
-            values = scipy.sparse.coo_matrix((data, (row, col)), shape=shape)
-            # note: even if function transforms nonzero values into zeros
-            # our init methods will filter them out from the data attribute
-            return values
-        # subset of data
         if preserveZeros:
-            dataSubset = []
-            rowSubset = []
-            colSubset = []
-            for idx, val in enumerate(data):
-                if row[idx] in points and col[idx] in features:
-                    rowSubset.append(row[idx])
-                    colSubset.append(col[idx])
-                    dataSubset.append(val)
-            dataSubset = function(dataSubset)
-            values = scipy.sparse.coo_matrix((dataSubset,
-                                              (rowSubset, colSubset)))
+            shape = self._data.shape
+            if points is not None or features is not None:
+                # the result only contains the limited points and features,
+                # in the order (and as many times) as they were requested
+                points = points if points else list(range(shape[0]))
+                features = features if features else list(range(shape[1]))
+                pointPos = defaultdict(list)
+                for pos, idx in enumerate(points):
+                    pointPos[idx].append(pos)
+                featurePos = defaultdict(list)
+                for pos, idx in enumerate(features):
+                    featurePos[idx].append(pos)
+                kept = [(i, pPos, fPos)
+                        for i, (r, c) in enumerate(zip(row, col))
+                        for pPos in pointPos.get(r, ())
+                        for fPos in featurePos.get(c, ())]
+                data = data[[i for i, _, _ in kept]]
+                row = [pPos for _, pPos, _ in kept]
+                col = [fPos for _, _, fPos in kept]
+                shape = (len(points), len(features))
+            if len(data) > 0:
+                try:
+                    data = function(data)
+                except Exception: # pylint: disable=broad-except
+                    function.otypes = [np.object_]
+                    data = function(data)
+            else:
+                data = np.array([], dtype=float)
             # note: even if function transforms nonzero values into zeros
             # our init methods will filter them out from the data attribute
-            return values
+            return scipy.sparse.coo_matrix((data, (row, col)), shape=shape)
         # zeros not preserved
         return self._calculate_genericVectorized(function, points, features)
 
-- 
2.43.0


From c2d64268f41b018aad91949968fa9a8e01abee70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:37 +0000
Subject: [PATCH 053/119] fix: transforming a DataFrame with large whole
 numbers neither fails nor is left half done

---
 nimble/core/data/_dataHelpers.py  | 17 +++++++++++++++++
 nimble/core/data/dataframe.py     | 14 +++++++-------
 nimble/core/data/dataframeAxis.py | 15 +++++++--------
 3 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index fed8152..4a05b3c 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -21,6 +21,7 @@ the main data wrapper objects defined in this module.
 """
 
 import math
+import numbers
 import re
 from functools import wraps
 from io import BytesIO
@@ -333,6 +334,22 @@ def constructIndicesList(obj, axis, values, argName=None):
 
     return indicesList
 
+def prepareColumnForValue(df, column, value):
+    """
+    Convert the column of the pandas DataFrame if pandas would otherwise
+    convert the value, or fail, when it is assigned to the column.
+    """
+    dtype = df.dtypes.iloc[column]
+    if dtype.type == np.datetime64:
+        # otherwise pandas could convert the value to a datetime
+        if isinstance(value, (numbers.Number, str)):
+            df[column] = df[column].astype(object)
+    elif (isinstance(dtype, np.dtype) and dtype.kind in 'iu'
+          and isinstance(value, (float, np.floating))
+          and np.isfinite(value) and abs(value) > np.iinfo(dtype).max):
+        # pandas fails for whole numbers that are beyond the integer limits
+        df[column] = df[column].astype(float)
+
 def validateNewNames(names, axis):
     """
     Verify names can be set for an axis before the data is modified.
diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index 7881321..cbf7251 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -21,7 +21,6 @@ Class extending Base, using a pandas DataFrame to store data.
 
 import csv
 import itertools
-import numbers
 
 import numpy as np
 
@@ -43,7 +42,7 @@ from ._dataHelpers import denseCountUnique
 from ._dataHelpers import writeMatrixMarket
 from ._dataHelpers import NimbleElementIterator
 from ._dataHelpers import convertToNumpyOrder, isValid2DObject
-from ._dataHelpers import getFeatureDtypes
+from ._dataHelpers import getFeatureDtypes, prepareColumnForValue
 
 @inheritDocstringsFactory(Base)
 class DataFrame(Base):
@@ -111,12 +110,12 @@ class DataFrame(Base):
 
             transformed.append((i, j, currRet))
 
+        # pandas can also fail, including after replacing some of the values
+        data = self._data.copy()
         for i, j, currRet in transformed:
-            # convert datetime columns so pandas can't convert to datetimes
-            if (self._data.dtypes.iloc[j].type == np.datetime64
-                    and isinstance(currRet, (numbers.Number, str))):
-                self._data[j] = self._data[j].astype(object)
-            self._data.iloc[i, j] = currRet
+            prepareColumnForValue(data, j, currRet)
+            data.iloc[i, j] = currRet
+        self._data = data
 
     # pylint: disable=unused-argument
     def _calculate_implementation(self, function, points, features,
@@ -435,6 +434,7 @@ class DataFrame(Base):
 
     def _setitem_implementation(self, x, y, value):
        # need to see if there is an issue with scalar vs slice
+      prepareColumnForValue(self._data, y, value)
       self._data.iat[x, y] = value
 
 
diff --git a/nimble/core/data/dataframeAxis.py b/nimble/core/data/dataframeAxis.py
index 0eed0dc..b3d1d4d 100644
--- a/nimble/core/data/dataframeAxis.py
+++ b/nimble/core/data/dataframeAxis.py
@@ -21,7 +21,6 @@ operations on a nimble DataFrame object.
 """
 
 from abc import ABCMeta, abstractmethod
-import numbers
 
 import numpy as np
 
@@ -36,6 +35,7 @@ from .views import FeaturesView
 from ._dataHelpers import denseAxisUniqueArray
 from ._dataHelpers import fillArrayWithCollapsedFeatures
 from ._dataHelpers import fillArrayWithExpandedFeatures
+from ._dataHelpers import prepareColumnForValue
 
 
 class DataFrameAxis(Axis, metaclass=ABCMeta):
@@ -198,14 +198,13 @@ class DataFramePoints(DataFrameAxis, Points):
                 currRet = currRet.copy("numpyarray", outputAs1D=True)
             transformed.append((i, currRet))
 
+        # pandas can also fail, including after replacing some of the values
+        data = self._base._data.copy()
         for i, currRet in transformed:
-            datetimeCols = [i for i, dt in enumerate(self._base._data.dtypes)
-                            if dt.type == np.datetime64]
-            for col in datetimeCols:
-                if isinstance(currRet[col], (numbers.Number, str)):
-                    self._base._data[col]  = self._base._data[col].astype(object)
-
-            self._base._data.iloc[i, :] = currRet
+            for j, val in enumerate(currRet):
+                prepareColumnForValue(data, j, val)
+            data.iloc[i, :] = currRet
+        self._base._data = data
 
     ################################
     # Higher Order implementations #
-- 
2.43.0


From 7709ac9ecd637e24a54412276ec3c0a4d8f800d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:48 +0000
Subject: [PATCH 054/119] fix: a Tuning for iterative selection can be copied

---
 nimble/core/tune.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 4982d80..01b3aad 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -1816,9 +1816,12 @@ class Tuning:
         """
         A new Tuner with attributes based on the latest tuning.
         """
+        validatorArgs = self._validatorArgs.copy()
+        # set based on selection, not a parameter of Tuning
+        validatorArgs.pop('allowIncremental', None)
         ret = Tuning(selection=self.selection, validation=self.validation,
                      performanceFunction=self.performanceFunction,
-                     **self._selectorArgs, **self._validatorArgs)
+                     **self._selectorArgs, **validatorArgs)
         ret.validator = self.validator
         ret.arguments = self.arguments
         ret._sortedResults = self._sortedResults
-- 
2.43.0


From 5348217c722ea1811a2817fed62e9df00e5a0728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:15 +0000
Subject: [PATCH 055/119] fix: consecutive selection tries every value of every
 argument

---
 nimble/core/tune.py | 88 ++++++++++++++++++++++++---------------------
 1 file changed, 47 insertions(+), 41 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 01b3aad..b364240 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -834,59 +834,62 @@ class Consecutive(ArgumentSelector):
         self._bestPerformance = None
         self._bestArgs = None
         self._currArgs = None
-        self._tried = set()
+        # a list because values are not required to be hashable
+        self._tried = []
 
-    def __next__(self):
-        if self._currentLoop > self.loops:
-            raise StopIteration
-        if self._currArgs is None:
-            self._currArgs = {}
-            if self.order is None:
-                createOrder = True
-                self.order = []
+    def _setInitialArgs(self):
+        self._currArgs = {}
+        createOrder = self.order is None
+        if createOrder:
+            self.order = []
+        for key, val in self.arguments.items():
+            if isinstance(val, Tune):
+                self._currArgs[key] = val[0]
+                self._tune[key] = iter(val[1:])
+                if createOrder:
+                    self.order.append(key)
+                elif key not in self.order:
+                    msg = f"{key} is not in the order list"
+                    raise ImproperObjectAction(msg)
             else:
-                createOrder = False
-            for key, val in self.arguments.items():
-                if isinstance(val, Tune):
-                    self._currArgs[key] = val[0]
-                    self._tune[key] = iter(val[1:])
-                    if createOrder:
-                        self.order.append(key)
-                    elif key not in self.order:
-                        msg = f"{key} is not in the order list"
-                        raise ImproperObjectAction(msg)
-                else:
-                    self._currArgs[key] = val
-        elif not self.order: # no Tune objects
-            raise StopIteration
-        else:
+                self._currArgs[key] = val
+
+    def _setNextArgs(self):
+        """
+        Set the next value of the argument being tuned. When it has no
+        more values, the next argument is tuned.
+        """
+        while self._target < len(self.order):
             target = self.order[self._target]
             try:
                 self._currArgs[target] = next(self._tune[target])
+                return
             except StopIteration:
-                if self._target + 1 < len(self.order): # next argument
-                    self._currArgs[target] = self._bestArgs[target]
-                    self._target += 1
-                    target = self.order[self._target]
-                    self._currArgs[target] = next(self._tune[target])
+                self._currArgs[target] = self._bestArgs[target]
+                self._target += 1
                 # new loop
-                elif self._currentLoop + 1 > self.loops:
-                    raise
-                else:
+                if (self._target >= len(self.order)
+                        and self._currentLoop < self.loops):
                     self._currentLoop += 1
                     self._target = 0
-                    target = self.order[self._target]
                     self._currArgs = self._bestArgs.copy()
                     for key in self.order:
-                        iterator = iter(val for val in self.arguments[key]
-                                        if val != self._currArgs[key])
-                        self._tune[key] = iterator
-                    self._currArgs[target] = next(self._tune[target])
-        # go to next if currArgs were already tried in a previous loop
-        if tuple(self._currArgs.items()) in self._tried:
-            return self.__next__()
+                        best = self._bestArgs[key]
+                        self._tune[key] = iter([val for val
+                                                in self.arguments[key]
+                                                if val != best])
+        raise StopIteration
+
+    def __next__(self):
+        if self._currArgs is None:
+            self._setInitialArgs()
+        else:
+            self._setNextArgs()
+            # go to next if already tried in a previous loop
+            while self._tunedValues() in self._tried:
+                self._setNextArgs()
         # save combo to avoid future loops from repeating combo
-        self._tried.add(tuple(self._currArgs.items()))
+        self._tried.append(self._tunedValues())
         performance = self.validator.validate(self._currArgs)
         if (self._bestPerformance is None
                 or self.validator._isBest(performance, self._bestPerformance)):
@@ -894,6 +897,9 @@ class Consecutive(ArgumentSelector):
             self._bestArgs = self._currArgs.copy()
         return self._currArgs.copy()
 
+    def _tunedValues(self):
+        return [self._currArgs[key] for key in self.order]
+
 
 class Bayesian(ArgumentSelector):
     """
-- 
2.43.0


From 64af860aab7efaf7a58acfd2837939f15ac2aa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:15 +0000
Subject: [PATCH 056/119] fix: iterative selection moves to the better of two
 improvements

---
 nimble/core/tune.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index b364240..0be3ca5 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -1121,10 +1121,10 @@ class Iterative(ArgumentSelector):
                 highBest = False
             if lowBest and highBest: # select better of the two
                 if self.validator._isBest(perfHigh, perfLow):
-                    best[name] = argLow
+                    best[name] = argHigh
                     self._tuneIdx[name] += 1
                 else:
-                    best[name] = argHigh
+                    best[name] = argLow
                     self._tuneIdx[name] -= 1
             elif lowBest:
                 best[name] = argLow
-- 
2.43.0


From 85d27d91df795cc9167c86a83a89827543ee7425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:59 +0000
Subject: [PATCH 057/119] fix: data holdout validates and returns the learner
 trained with each argument set

---
 nimble/core/tune.py | 71 ++++++++++++++++++++++++++-------------------
 1 file changed, 41 insertions(+), 30 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 0be3ca5..e0fb44e 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -579,7 +579,6 @@ class HoldoutData(HoldoutValidator):
         self._trainedLearner = None
         self._trainedLearnerBase = None
         self._incremental = None if allowIncremental else False
-        self._updater = None
         self._lastArguments = {}
         self.bestTrainedLearner = None
 
@@ -594,45 +593,51 @@ class HoldoutData(HoldoutValidator):
             self._arguments.append(arguments)
             if self._best is None or self._isBest(performance, self._best[0]):
                 self._best = (performance, arguments)
-                self.bestTrainedLearner = copy.copy(self._trainedLearnerBase)
+                # the learner that was validated, before any more training
+                self.bestTrainedLearner = self._copyTrainedLearner(
+                    self._trainedLearner)
 
         return performance
 
+    def _copyTrainedLearner(self, trainedLearner):
+        """
+        A copy that is not affected by training the original.
+        """
+        ret = copy.copy(trainedLearner)
+        # only incremental training modifies the backend
+        if self._incremental is not False:
+            ret._backend = copy.deepcopy(trainedLearner._backend)
+        return ret
+
     def _updateTrainedLearner(self, trial):
+        # without incremental training, learners are never trained further
+        if self._incremental is False:
+            return
         if trial:
-            self._trainedLearner = copy.copy(self._trainedLearnerBase)
+            self._trainedLearner = self._copyTrainedLearner(
+                self._trainedLearnerBase)
         else:
             self._trainedLearner = self._trainedLearnerBase
 
     def _validate(self, arguments):
         if self._trainedLearner is None:
-            self._trainedLearnerBase = nimble.train(
-                self.learnerName, self.X, self.Y, arguments,
-                randomSeed=self.randomSeed, useLog=False)
+            self._trainedLearnerBase = self._train(arguments)
             self._trainedLearner = self._trainedLearnerBase
-            self._lastArguments = arguments
-        elif self._updater is None:
-            if self._incremental is None:
-                try:
-                    self._trainedLearner.incrementalTrain(
-                        self.X, self.Y, arguments, self.randomSeed,
-                        useLog=False)
-                    self._updater = self._trainedLearner.incrementalTrain
-                    self._incremental = True
-                except TypeError:
-                    self._incremental = False
-            if not self._incremental:
-                self._updater = self._trainedLearner.retrain
-                # only retrain if arguments have changed
-                if arguments != self._lastArguments:
-                    self._trainedLearner.retrain(
-                        self.X, self.Y, arguments, self.randomSeed,
-                        useLog=False)
-            self._lastArguments = arguments
-        elif self._incremental or arguments != self._lastArguments:
-            self._updater(self.X, self.Y, arguments, self.randomSeed,
-                          useLog=False)
-            self._lastArguments = arguments
+        elif self._incremental is not False:
+            try:
+                self._trainedLearner.incrementalTrain(
+                    self.X, self.Y, arguments, self.randomSeed, useLog=False)
+                self._incremental = True
+            except (TypeError, ImproperObjectAction):
+                if self._incremental:
+                    raise
+                # this learner does not support incremental training
+                self._incremental = False
+                self._trainedLearner = self._train(arguments)
+        # only train again if arguments have changed
+        elif arguments != self._lastArguments:
+            self._trainedLearner = self._train(arguments)
+        self._lastArguments = arguments
 
         performance = self._trainedLearner.test(
             self.performanceFunction, self.validateX, self.validateY,
@@ -640,6 +645,11 @@ class HoldoutData(HoldoutValidator):
 
         return performance
 
+    def _train(self, arguments):
+        return nimble.train(
+            self.learnerName, self.X, self.Y, arguments,
+            randomSeed=self.randomSeed, useLog=False)
+
 
 class HoldoutProportion(HoldoutValidator):
     """
@@ -1139,7 +1149,8 @@ class Iterative(ArgumentSelector):
             raise StopIteration
         if best:
             self._currArgs.update(best)
-            self.validator._updateTrainedLearner(trial=True)
+            # continues from here in the next iteration
+            self.validator._updateTrainedLearner(trial=False)
             performance = self.validator.validate(self._currArgs)
             if self.validator._isBest(performance, self._bestPerf):
                 self._bestPerf = performance
-- 
2.43.0


From 95b0c2f316ada6f631bb7c64188bd6ea28ed48e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:26 +0000
Subject: [PATCH 058/119] fix: bayesian selection only evaluates the values to
 tune

---
 nimble/core/tune.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index e0fb44e..2f1dc97 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -966,27 +966,27 @@ class Bayesian(ArgumentSelector):
         self.threshold = threshold
         space = {}
         self._noTune = True
+        # arguments with a linear or exponential range of values use the
+        # (linear) index of the value so only the values can be selected
+        indexed = {}
         # determine the distribution for each argument
         for name, arg in self.arguments.items():
             if isinstance(arg, Tune):
                 self._noTune = False
-                if arg._changeType == 'add':
-                    if all(v % 1 == 0 for v
-                           in [arg._start, arg._end, arg._change]):
-                        space[name] = hp.uniformint(name, arg._start, arg._end,
-                                                    q=arg._change)
-                    else:
-                        space[name] = hp.quniform(name, arg._start, arg._end,
-                                                  arg._change)
-                elif arg._changeType == 'exponential':
-                    space[name] = hp.qloguniform(name, arg._start, arg._end,
-                                                 arg._change)
+                if arg._changeType in ['add', 'exponential'] and len(arg) > 1:
+                    indexed[name] = sorted(arg)
+                    space[name] = hp.quniform(name, 0, len(arg) - 1, 1)
                 else:
                     space[name] = hp.choice(name, arg._values)
             else:
                 space[name] = arg
 
-        domain = hyperopt.Domain(self.validator.validate, space)
+        def validate(arguments):
+            for name, values in indexed.items():
+                arguments[name] = values[int(arguments[name])]
+            return self.validator.validate(arguments)
+
+        domain = hyperopt.Domain(validate, space)
         self.trials = hyperopt.Trials()
 
         # 0.2.6 and afterwards only allows for BitGenerator rng sources
-- 
2.43.0


From db852ea4504c6c85ccfe57ef3c28cfb4fcb61fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:39 +0000
Subject: [PATCH 059/119] fix: replacing a rectangle of a Sparse after its last
 stored value

---
 nimble/core/data/sparse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index f6e7d14..604bff2 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -457,7 +457,9 @@ class Sparse(Base):
         # loop will ignore the contents of self.
         if len(self._data.data) > 0:
             selfIdx = self._sorted['indices'][pointStart]
+            copyIndex = selfIdx
 
+        if selfIdx < selfEnd:
             pcheck = self._data.row[selfIdx]
             fcheck = self._data.col[selfIdx]
             # the condition in the while loop is a natural break, if it isn't
-- 
2.43.0


From 00114f1396c8bf56ea294a578b2838925a5fc19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:04 +0000
Subject: [PATCH 060/119] fix: bayesian selection without values to tune
 evaluates the arguments

---
 nimble/core/tune.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 2f1dc97..6c050bd 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -964,6 +964,8 @@ class Bayesian(ArgumentSelector):
         self.maxIterations = maxIterations
         self.timeout = timeout
         self.threshold = threshold
+        self._stopIteration = False
+        self._startTime = None
         space = {}
         self._noTune = True
         # arguments with a linear or exponential range of values use the
@@ -981,6 +983,9 @@ class Bayesian(ArgumentSelector):
             else:
                 space[name] = arg
 
+        if self._noTune: # only one set of arguments, no space to search
+            return
+
         def validate(arguments):
             for name, values in indexed.items():
                 arguments[name] = values[int(arguments[name])]
@@ -1000,16 +1005,12 @@ class Bayesian(ArgumentSelector):
             hyperopt.tpe.suggest, domain, self.trials,
             randSource, max_evals=self.maxIterations)
 
-        self._stopIteration = False
-        self._startTime = None
-
     def __next__(self):
         # calling next on FMinIter does not properly manage threshold and
         # timing so these are handled internally
         if self._startTime is None:
             self._startTime = default_timer()
         if (self._stopIteration
-                or (self._noTune and self.validator._incremental is False)
                 or (self.timeout is not None
                     and default_timer() - self._startTime > self.timeout)
                 or (self.validator._results and self.threshold is not None
@@ -1019,7 +1020,14 @@ class Bayesian(ArgumentSelector):
         # call so need to catch and return the arguments used during that call
         # then stop iteration on the next call
         try:
-            _ = next(self.iterator)
+            if self._noTune:
+                self.validator.validate(self.arguments)
+                # only incremental training could provide a new result
+                if (self.validator._incremental is False or
+                        len(self.validator._results) >= self.maxIterations):
+                    self._stopIteration = True
+            else:
+                _ = next(self.iterator)
         except StopIteration:
             self._stopIteration = True
         return self.validator._arguments[-1]
-- 
2.43.0


From c8b506a85be00a7c839544cd254878785b8748a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:04 +0000
Subject: [PATCH 061/119] fix: storm selection without maxIterations or with
 single or repeated values

---
 nimble/core/tune.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 6c050bd..6af1f7f 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -1276,6 +1276,8 @@ class StochasticRandomMutator(ArgumentSelector):
         # override storm_tuner randomness reproducibility
         storm_tuner.tuner.random = pythonRandom
 
+        if maxIterations is None:
+            maxIterations = sys.maxsize
         self.maxIterations = maxIterations
         self.timeout = timeout
         self.threshold = threshold
@@ -1294,8 +1296,10 @@ class StochasticRandomMutator(ArgumentSelector):
                     msg += 'because it is being defined by the learnerArgsFunc'
                     raise InvalidArgumentValueCombination(msg)
                 if isinstance(arg, Tune):
-                    buildArgs[name] = hp.Param(
-                        name, list(arg), ordered=arg._changeType is not None)
+                    # storm_tuner requires adjacent values when ordered
+                    ordered = arg._changeType is not None and len(arg) > 1
+                    buildArgs[name] = hp.Param(name, list(arg),
+                                               ordered=ordered)
                     logArgs[name] = buildArgs[name]
                 else:
                     buildArgs[name] = arg
@@ -1323,8 +1327,10 @@ class StochasticRandomMutator(ArgumentSelector):
                 # infinite loop if max_iters is greater than the total number
                 # of permutations
                 if not self._iters_checked:
+                    # storm_tuner identifies permutations by their strings
                     maxOptions = len(list(itertools.product(
-                        *(p.values for p in hp.space.values()))))
+                        *({str(v) for v in p.values}
+                          for p in hp.space.values()))))
                     # pylint: disable=attribute-defined-outside-init
                     self.max_iters = min(self.max_iters, maxOptions)
                 buildArgs, logArgs = _wrappedBuildFunc(hp)
-- 
2.43.0


From 800e1a37440563008e3ede041491ebab3f0a04df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:16 +0000
Subject: [PATCH 062/119] fix: Tune of a range with a step has the values of
 the range

---
 nimble/core/tune.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 6af1f7f..7934971 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -1433,15 +1433,18 @@ class Tune:
 
         # prevents needing to autodetect a linear range
         if isinstance(values, range):
-            self._values = None
+            self._values = list(values)
             self._start = values.start
-            self._end = values.stop - 1
+            self._end = values[-1] if values else values.start
             self._change = values.step
+            self._changeType = 'add'
 
         self._args = {'values': values, 'start': start, 'end': end,
                       'change': change, 'changeType': changeType}
 
-        if self._values is None:
+        if isinstance(values, range):
+            pass
+        elif self._values is None:
             if self._start is None:
                 self._start = 0
             if self._change is None:
-- 
2.43.0


From d4b37e3df441e301acc69c33f23f768a00f4401b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:16 +0000
Subject: [PATCH 063/119] fix: Tune of values that include negative numbers and
 zero

---
 nimble/core/tune.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 7934971..97f196f 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -1505,7 +1505,7 @@ class Tune:
                         self._end = sort[-1]
                         self._change = difLin
                         self._changeType = 'add'
-                    elif sort[0]:
+                    elif all(sort):
                         difExp = sort[1] / sort[0]
                         expDiffs = (sort[i + 1] / sort[i] for i
                                     in range(len(sort) - 1))
-- 
2.43.0


From bc82709cc69088c8e85bf8f00e12d53f5f02a743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:16 +0000
Subject: [PATCH 064/119] fix: Tune with equal start and end, or a change that
 never reaches end

---
 nimble/core/tune.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 97f196f..ba4a363 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -1465,8 +1465,13 @@ class Tune:
             start = self._start
             change = self._change
             self._values = []
+            if not linear and (self._start <= 0 or self._end <= 0):
+                # repeatedly multiplying would never reach end
+                msg = "start and end must be greater than 0 when changeType "
+                msg += "is 'multiply'"
+                raise InvalidArgumentValue(msg)
             if self._start < self._end:
-                if not linear and change < 1:
+                if not linear and change <= 1:
                     msg = "change must be greater than 1"
                     raise InvalidArgumentValue(msg)
                 if linear and change <= 0:
@@ -1481,11 +1486,15 @@ class Tune:
                     msg = "change must be less than 0"
                     raise InvalidArgumentValue(msg)
                 comp = operator.ge
+            else: # only one value
+                comp = operator.eq
 
             curr = self._start
             while comp(curr, self._end):
                 self._values.append(curr)
                 curr = op(curr, self._change)
+                if comp is operator.eq:
+                    break
                 # rounding errors can prevent end from being included
                 if linear and round(curr, 12) == self._end:
                     curr = self._end
-- 
2.43.0


From b145bce4996cde4689cedb2e6bb4479eb513411d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 065/119] fix: an undefined (nan) performance is never the best
 result of tuning

---
 nimble/core/tune.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index ba4a363..fea1090 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -222,7 +222,7 @@ class Validator(ABC):
         # detectBestResult will raise exception for invalid performanceFunction
         optimal = nimble.calculate.detectBestResult(performanceFunction)
         self.optimal = optimal
-        self._isBest = operator.gt if optimal == 'max' else operator.lt
+        self._compare = operator.gt if optimal == 'max' else operator.lt
         # use same random seed each time
         if randomSeed is None:
             self.randomSeed = nimble.random.generateSubsidiarySeed()
@@ -263,6 +263,12 @@ class Validator(ABC):
 
         return performance
 
+    def _isBest(self, performance, best):
+        # any other performance is better than an undefined (nan) performance
+        if best != best: # pylint: disable=comparison-with-itself
+            return performance == performance
+        return self._compare(performance, best)
+
     @abstractmethod
     def _validate(self, arguments):
         pass
@@ -1800,8 +1806,12 @@ class Tuning:
         toZip = [self.validator._results, self.validator._arguments]
         if hasattr(self.validator, '_deepResults'):
             toZip.append(self.validator._deepResults)
-        self._sortedResults = sorted(zip(*toZip), key=itemgetter(0),
-            reverse=highestIsBest)
+        # nan values cannot be ordered, so they are placed after the others
+        results = list(zip(*toZip))
+        undefined = [r for r in results if r[0] != r[0]]
+        self._sortedResults = sorted(
+            (r for r in results if r[0] == r[0]), key=itemgetter(0),
+            reverse=highestIsBest) + undefined
 
         handleLogging(useLog, 'tuning', selector, self.validator)
 
-- 
2.43.0


From 726efc9272936204cf632639f4dc0a42fa58fd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 066/119] fix: a Tuning uses the performance function of each
 training

---
 nimble/core/learn.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/nimble/core/learn.py b/nimble/core/learn.py
index 01a90cb..9d610a0 100644
--- a/nimble/core/learn.py
+++ b/nimble/core/learn.py
@@ -1026,17 +1026,26 @@ def _trainAndTestBackend(performanceFunction, learnerName, trainX, trainY,
                          testX, testY, arguments, multiClassStrategy,
                          randomSeed, tuning, useLog, **kwarguments):
     merged = mergeArguments(arguments, kwarguments)
+    provideFunction = False
     if any(isinstance(arg, Tune) for arg in merged.values()):
         if tuning is None:
             tuning = Tuning(performanceFunction=performanceFunction)
         elif not isinstance(tuning, Tuning):
             tuning = Tuning(performanceFunction=tuning)
         elif tuning.performanceFunction is None:
-            tuning.performanceFunction=performanceFunction
-
-    trainedLearner = train(learnerName, trainX, trainY, merged,
-                           multiClassStrategy=multiClassStrategy,
-                           randomSeed=randomSeed, tuning=tuning, useLog=useLog)
+            # only applies to this training, tuning can be used again
+            provideFunction = True
+
+    try:
+        if provideFunction:
+            tuning.performanceFunction = performanceFunction
+        trainedLearner = train(learnerName, trainX, trainY, merged,
+                               multiClassStrategy=multiClassStrategy,
+                               randomSeed=randomSeed, tuning=tuning,
+                               useLog=useLog)
+    finally:
+        if provideFunction:
+            tuning.performanceFunction = None
 
     if testX is None:
         testX = trainX
-- 
2.43.0


From b2e5189646a4320dbf4405356ca85bc101d60b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:43 +0000
Subject: [PATCH 067/119] fix: tuning with holdout data applies the
 multiClassStrategy

---
 nimble/core/learn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/learn.py b/nimble/core/learn.py
index 9d610a0..74d2d55 100644
--- a/nimble/core/learn.py
+++ b/nimble/core/learn.py
@@ -828,7 +828,8 @@ def train(learnerName, trainX, trainY=None, arguments=None,
     else:
         bestArguments = arguments
 
-    if tuning is not None and hasattr(tuning.validator, 'bestTrainedLearner'):
+    if (tuning is not None and multiClassStrategy is None
+            and hasattr(tuning.validator, 'bestTrainedLearner')):
         trainedLearner = tuning.validator.bestTrainedLearner
         trainedLearner._tuning = tuning
     else:
-- 
2.43.0


From 7181c641d9b9c00d1464ffc025586c4b1d90cd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:32 +0000
Subject: [PATCH 068/119] fix: bayesian selection provides arguments as they
 were given

---
 nimble/core/tune.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index fea1090..16ddc4e 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -974,9 +974,11 @@ class Bayesian(ArgumentSelector):
         self._startTime = None
         space = {}
         self._noTune = True
-        # arguments with a linear or exponential range of values use the
-        # (linear) index of the value so only the values can be selected
+        # only the index of a value is provided to hyperopt, it would modify
+        # some types of values. For arguments with a linear or exponential
+        # range of values the (linear) index is what is searched
         indexed = {}
+        fixed = {}
         # determine the distribution for each argument
         for name, arg in self.arguments.items():
             if isinstance(arg, Tune):
@@ -985,9 +987,10 @@ class Bayesian(ArgumentSelector):
                     indexed[name] = sorted(arg)
                     space[name] = hp.quniform(name, 0, len(arg) - 1, 1)
                 else:
-                    space[name] = hp.choice(name, arg._values)
+                    indexed[name] = list(arg)
+                    space[name] = hp.choice(name, list(range(len(arg))))
             else:
-                space[name] = arg
+                fixed[name] = arg
 
         if self._noTune: # only one set of arguments, no space to search
             return
@@ -995,6 +998,7 @@ class Bayesian(ArgumentSelector):
         def validate(arguments):
             for name, values in indexed.items():
                 arguments[name] = values[int(arguments[name])]
+            arguments.update(fixed)
             return self.validator.validate(arguments)
 
         domain = hyperopt.Domain(validate, space)
-- 
2.43.0


From 2d92a67144dbe236c13454b5dc6239aadeae55e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:12 +0000
Subject: [PATCH 069/119] fix: Tune includes an end that is itself a rounded
 number

---
 nimble/core/tune.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 16ddc4e..5ebb73f 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -1506,7 +1506,7 @@ class Tune:
                 if comp is operator.eq:
                     break
                 # rounding errors can prevent end from being included
-                if linear and round(curr, 12) == self._end:
+                if linear and round(curr, 12) == round(self._end, 12):
                     curr = self._end
 
         else:
-- 
2.43.0


From 6623e38a3f4c27febd904124a86f713197811e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:54 +0000
Subject: [PATCH 070/119] fix: numpy integers identify features during tuning

---
 nimble/core/tune.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 5ebb73f..8508875 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -209,7 +209,7 @@ class Validator(ABC):
 
         self.learnerName = learnerName
 
-        if isinstance(Y, (int, str, list)):
+        if isinstance(Y, (int, np.integer, str, list)):
             X = X.copy()
             Y = X.features.extract(Y, useLog=False)
 
@@ -466,12 +466,12 @@ class LeaveOneGroupOut(CrossValidator):
             msg += "group out validation"
             raise InvalidArgumentValue(msg)
         self.foldFeature = foldFeature
-        if isinstance(foldFeature, (str, int, list)):
+        if isinstance(foldFeature, (str, int, np.integer, list)):
             if foldFeature == Y:
                 msg = "foldFeature and Y cannot be the same feature"
                 raise InvalidArgumentValueCombination(msg)
             foldFeature = X.features[foldFeature]
-            if isinstance(Y, (str, int, list)):
+            if isinstance(Y, (str, int, np.integer, list)):
                 X = X.copy()
                 Y = X.features.extract(Y, useLog=False)
         elif len(foldFeature.points) != len(X.points):
@@ -497,11 +497,11 @@ class HoldoutValidator(Validator):
             msg = "validateX cannot be None"
             raise InvalidArgumentValue(msg)
         if validateY is None: # use Y value if an identifier
-            if not isinstance(Y, (int, str, list)):
+            if not isinstance(Y, (int, np.integer, str, list)):
                 msg = "No data provided for validateY"
                 raise InvalidArgumentValue(msg)
             validateY = Y
-        if isinstance(validateY, (int, str, list)):
+        if isinstance(validateY, (int, np.integer, str, list)):
             validateX = validateX.copy()
             validateY = validateX.features.extract(validateY, useLog=False)
 
@@ -701,7 +701,7 @@ class HoldoutProportion(HoldoutValidator):
                                        replace=False)
         X = X.copy()
         validateX = X.points.extract(selection, useLog=False)
-        if isinstance(Y, (int, str, list)):
+        if isinstance(Y, (int, np.integer, str, list)):
             validateY = Y
         else:
             Y = Y.copy()
-- 
2.43.0


From 6fc35d53ccf5b8e621acade9037706b70df77afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:54 +0000
Subject: [PATCH 071/119] fix: a validation that failed does not affect the
 next validation

---
 nimble/core/tune.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 8508875..adb7142 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -86,6 +86,8 @@ class FoldIterator(ABC):
         self.index = 0
 
     def __iter__(self):
+        # always begin with the first fold, even if iteration was interrupted
+        self.index = 0
         return self
 
     def __next__(self):
-- 
2.43.0


From abcc42e5ca9ab70d42cc3def12c11c1ff23d310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:10 +0000
Subject: [PATCH 072/119] fix: nimble is importable when scipy is not installed

---
 nimble/core/data/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index f971060..92d446c 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -35,7 +35,6 @@ import shutil
 import re
 
 import numpy as np
-from scipy.sparse import coo_matrix
 
 
 import nimble
@@ -45,7 +44,7 @@ from nimble.exceptions import ImproperObjectAction, PackageException
 from nimble.exceptions import InvalidArgumentValueCombination
 from nimble.core.logger import handleLogging, LogID
 from nimble.match import QueryString
-from nimble._utility import cloudpickle, h5py, plt, IPython, pd
+from nimble._utility import cloudpickle, h5py, plt, IPython, pd, scipy
 from nimble._utility import isDatetime
 from nimble._utility import tableString, prettyListString, quoteStrings
 from nimble._utility import _getStatsFunction, acceptedStats
@@ -118,10 +117,11 @@ def isNumeric(base):
         return all(is_numeric_column(column) for column in base._data.dtypes)
     elif isinstance(base._data, np.ndarray):
         return np.issubdtype(base._data.dtype, np.number)
-    elif isinstance(base._data, coo_matrix):
-        return base._data.dtype.kind in 'ifc'
     elif isinstance(base._data, list):
         return checkNumericListType(base._data)
+    elif (scipy.nimbleAccessible()
+          and isinstance(base._data, scipy.sparse.coo_matrix)):
+        return base._data.dtype.kind in 'ifc'
     else:
         raise ValueError("Unsupported data type")
 
-- 
2.43.0


From 920513327818dcef4f530db8a844bbe99b1718a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:42 +0000
Subject: [PATCH 073/119] fix: an optional package that fails to import counts
 as not accessible

---
 nimble/_utility.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nimble/_utility.py b/nimble/_utility.py
index 4fdce96..5e2cbd3 100644
--- a/nimble/_utility.py
+++ b/nimble/_utility.py
@@ -222,7 +222,9 @@ class DeferredModuleImport(object):
             try:
                 mod = importlib.import_module(self.name)
                 self.imported = mod
-            except ImportError:
+            except Exception: # pylint: disable=broad-except
+                # not installed, or the installation is broken, which can
+                # raise any exception (i.e. binary incompatibilities)
                 return False
         if not self.validated:
             # may import submodules but need to check version of base module
-- 
2.43.0


From 795659778a3c7bb124ba923406f0837c4b97fbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:42 +0000
Subject: [PATCH 074/119] fix: nimble.MultiOutputLinearRegression reports that
 sklearn is required

---
 nimble/learners/multioutput_linear_regression.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/nimble/learners/multioutput_linear_regression.py b/nimble/learners/multioutput_linear_regression.py
index eaf2e56..ec14ba6 100644
--- a/nimble/learners/multioutput_linear_regression.py
+++ b/nimble/learners/multioutput_linear_regression.py
@@ -19,15 +19,13 @@
 Contains the MultiOutputLinearRegression custom learner class.
 """
 
-try:
-    from sklearn.linear_model import LinearRegression
-    imported = True
-except ImportError:
-    imported = False
-
 import nimble
 from nimble import CustomLearner
+from nimble.exceptions import PackageException
 from nimble._utility import numpy2DArray, dtypeConvert
+from nimble._utility import DeferredModuleImport
+
+sklearn = DeferredModuleImport('sklearn')
 
 # pylint: disable=attribute-defined-outside-init
 class MultiOutputLinearRegression(CustomLearner):
@@ -40,6 +38,9 @@ class MultiOutputLinearRegression(CustomLearner):
     learnerType = 'regression'
 
     def train(self, trainX, trainY):
+        if not sklearn.nimbleAccessible():
+            msg = "sklearn must be installed to use this learner"
+            raise PackageException(msg)
         self._models = []
         rawTrainX = dtypeConvert(trainX.copy(to='numpyarray'))
 
@@ -48,7 +49,7 @@ class MultiOutputLinearRegression(CustomLearner):
             rawCurrY = dtypeConvert(currY.copy(to='numpyarray',
                                                outputAs1D=True))
 
-            currModel = LinearRegression()
+            currModel = sklearn.linear_model.LinearRegression()
             currModel.fit(rawTrainX, rawCurrY)
             self._models.append(currModel)
 
-- 
2.43.0


From 2a0515805b4ed9a91f515e2a874a4447903a5be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:59 +0000
Subject: [PATCH 075/119] fix: showAvailablePackages lists a package that fails
 to import

---
 nimble/core/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/configuration.py b/nimble/core/configuration.py
index 75ac425..77810cd 100644
--- a/nimble/core/configuration.py
+++ b/nimble/core/configuration.py
@@ -433,7 +433,7 @@ def showAvailablePackages():
         except PackageException:
             statuses[name] = ["No"]
             badVersion = True
-        except ImportError:
+        except Exception: # pylint: disable=broad-except
             statuses[name] = ["No"]
         statuses[name].append(dependency.description)
         if badVersion:
-- 
2.43.0


From 7e240f715c0bd4b19f5f7bc121ced43f3cb50e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:25 +0000
Subject: [PATCH 076/119] fix: converting types without pandas keeps the data a
 Matrix

---
 nimble/core/_createHelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 5b9cb9d..d927662 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1597,7 +1597,7 @@ def initDataObject(
         returnType = analyzeValues(rawData, returnType, skipDataProcessing)
     
     # Decide if nimble Matrix is better as DataFrame given convertToType input.
-    if returnType == "Matrix":
+    if returnType == "Matrix" and pd.nimbleAccessible():
         matrixConvertTypes = list(NUM_TUPLE) + [np.datetime64, None]
         if type(convertToType) == list:
             if len(set(convertToType)) == 1:
-- 
2.43.0


From cfe0d2d1fa268f3230d837e8cd87f4ae16c2f1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:55 +0000
Subject: [PATCH 077/119] fix: list-like data can be loaded without pandas

---
 nimble/core/_createHelpers.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index d927662..01a14f1 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1535,13 +1535,15 @@ def initDataObject(
                 returnType = "Sparse"
         elif returnType is None:
             returnType = "DataFrame"
-    elif returnType is None and not pd.nimbleAccessible():
-        returnType = "Matrix" # can't use DataFrame so default to Matrix
-    # anything we do not recognize turn into a list, this allows for source to
-    # be range, generator, map, iter, etc., and other list-like data structures
-    elif not isinstance(rawData, (list, dict)):
-        rawData = list(rawData)
-        copied = True
+    else:
+        if returnType is None and not pd.nimbleAccessible():
+            returnType = "Matrix" # can't use DataFrame so default to Matrix
+        # anything we do not recognize turn into a list, this allows for source
+        # to be range, generator, map, iter, etc., and other list-like data
+        # structures
+        if not isinstance(rawData, (list, dict)):
+            rawData = list(rawData)
+            copied = True
 
     rawData, highDim, copied = isHighDimensionData(rawData, rowsArePoints,
                                                    skipDataProcessing, copied)
-- 
2.43.0


From afd70990b34ad1bb5f7a7da6c403c3ec388fc0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:23 +0000
Subject: [PATCH 078/119] fix: structured arrays report that pandas is required

---
 nimble/core/_createHelpers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 01a14f1..8c4d003 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -299,6 +299,10 @@ def extractNamesFromNumpy(data, pnamesID, fnamesID, copied):
  
     # Special consideration for Structured Numpy arrays
     def _convertStructuredNumpyToDataFrame(data):
+        if not pd.nimbleAccessible():
+            msg = "pandas must be installed to use a structured array that "
+            msg += "contains non-numeric values"
+            raise PackageException(msg)
         data = pd.DataFrame(data, columns=retFNames)
         fnamesID = True
         return extractNamesFromPdDataFrame(data, pnamesID, fnamesID, copied)
-- 
2.43.0


From de0c7da2cdabcf5b719d1a3ab27a53723766e2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:18 +0000
Subject: [PATCH 079/119] fix: alternateControl that refuses its seed is not
 logged

---
 nimble/random/randomness.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nimble/random/randomness.py b/nimble/random/randomness.py
index 59149dd..a13ed81 100644
--- a/nimble/random/randomness.py
+++ b/nimble/random/randomness.py
@@ -326,6 +326,7 @@ def alternateControl(seed=None, *, useLog=None):
     pythonState = pythonRandom.getstate()
     numpyState = numpyRandom.get_state()
     savedSettable = setSeed._settable
+    entered = False
     try:
         pythonRandom.seed(seed)
         numpyRandom.seed(seed)
@@ -333,11 +334,13 @@ def alternateControl(seed=None, *, useLog=None):
 
         action = 'entered random.alternateControl'
         handleLogging(useLog, 'setSeed', action, seed=seed)
+        entered = True
         yield
     finally:
         pythonRandom.setstate(pythonState)
         numpyRandom.set_state(numpyState)
         setSeed._settable = savedSettable
 
-        action = 'exited random.alternateControl'
-        handleLogging(useLog, 'setSeed', action, seed=seed)
+        if entered: # otherwise the seed was refused
+            action = 'exited random.alternateControl'
+            handleLogging(useLog, 'setSeed', action, seed=seed)
-- 
2.43.0


From f2093c3079d8f086721b6a3d9aed99e307a1a02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:42 +0000
Subject: [PATCH 080/119] fix: keeping points or features of loaded data keeps
 its name and logs once

---
 nimble/core/_createHelpers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 8c4d003..8a595d1 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1671,9 +1671,10 @@ def initDataObject(
         cleaned = getKeepIndexValues(ret.points, keepPoints)
         if len(cleaned) == numPts:
             pCmp = makeCmp(cleaned, ret, 'point')
-            ret.points.sort(by=pCmp)
+            ret.points.sort(by=pCmp, useLog=False)
         else:
-            ret = ret.points.copy(cleaned)
+            kept = ret.points.copy(cleaned, useLog=False)
+            ret._referenceFrom(kept, paths=(ret._absPath, ret._relPath))
         # if we had a subset of pointNames can set now on the cleaned data
         if setPtNamesAfter:
             ret.points.setNames(pointNames, useLog=False)
@@ -1702,9 +1703,10 @@ def initDataObject(
                 raise InvalidArgumentValue(msg)
         if len(cleaned) == numFts:
             fCmp = makeCmp(cleaned, ret, 'feature')
-            ret.features.sort(by=fCmp)
+            ret.features.sort(by=fCmp, useLog=False)
         else:
-            ret = ret.features.copy(cleaned)
+            kept = ret.features.copy(cleaned, useLog=False)
+            ret._referenceFrom(kept, paths=(ret._absPath, ret._relPath))
         # if we had a subset of featureNames can set now on the cleaned data
         if setFtNamesAfter:
             ret.features.setNames(featureNames, useLog=False)
-- 
2.43.0


From 64762e11a5f361e03b1340b177f6ec783e02fafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:42 +0000
Subject: [PATCH 081/119] fix: one-vs-one training does not log its own data
 preparation

---
 nimble/core/interfaces/universal_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index e6f4e80..16510af 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -262,7 +262,7 @@ class UniversalInterface(metaclass=abc.ABCMeta):
 
                 # Get set of unique class labels, then generate list of all
                 # 2-combinations of class labels
-                labelVector = trainX.features.copy([trainY])
+                labelVector = trainX.features.copy([trainY], useLog=False)
                 labelVector.transpose(useLog=False)
                 labelVectorToList = labelVector.copy(to="python list")[0]
                 labelSet = _orderedLabels(labelVectorToList)
-- 
2.43.0


From cb53067d84250df554cf9d75933ef6e9a62aad40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:42 +0000
Subject: [PATCH 082/119] fix: grouping by a feature with missing values logs
 once

---
 nimble/core/data/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 92d446c..12ba4de 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1394,7 +1394,8 @@ class Base(ABC):
             if isinstance(val, numbers.Number):
                 if val in undefined:
                     # check that the feature axis doesn't have that string.
-                    if "NaN" not in list(self.features.copy(by)):
+                    if "NaN" not in list(self.features.copy(by,
+                                                           useLog=False)):
                         return "NaN"
                     return 'numpy.nan'
                 iVal = int(val)
-- 
2.43.0


From f690f395e1926b4784ee1901d083450552b52fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:42 +0000
Subject: [PATCH 083/119] fix: tuning with a function that does not declare its
 optimal can be logged

---
 nimble/core/logger/session_logger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index 4ff1e88..d39ae72 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -693,7 +693,8 @@ class SessionLogger(object):
                     logInfo["validationArgs"][name] = arg
             logInfo["learnerName"] = validator.learnerName
             performanceFunction = validator.performanceFunction
-            logInfo["metric"] = (performanceFunction.optimal,
+            # not all functions declare an optimal value
+            logInfo["metric"] = (validator.optimal,
                                  performanceFunction.__name__)
             logInfo["performances"] = list(
                 zip(validator._results,
-- 
2.43.0


From 78b468f512db69e5939731960ce5454351ef9a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:42 +0000
Subject: [PATCH 084/119] fix: calls that follow another call within an
 operation are not entry points

---
 nimble/core/_learnHelpers.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/nimble/core/_learnHelpers.py b/nimble/core/_learnHelpers.py
index b6e619b..008a46e 100644
--- a/nimble/core/_learnHelpers.py
+++ b/nimble/core/_learnHelpers.py
@@ -689,14 +689,13 @@ def trackEntry(func):
     """
     @wraps(func)
     def wrapped(*args, **kwargs):
-        if trackEntry.isEntryPoint is None: # entry point
-            trackEntry.isEntryPoint = True
-        elif trackEntry.isEntryPoint: # previous call was entry point
-            trackEntry.isEntryPoint = False
+        # None when not within a tracked call
+        previous = trackEntry.isEntryPoint
         try:
+            trackEntry.isEntryPoint = previous is None
             ret = func(*args, **kwargs)
         finally:
-            trackEntry.isEntryPoint = None # reset
+            trackEntry.isEntryPoint = previous # reset
 
         return ret
 
-- 
2.43.0


From d11db2737ef702ad2f15cbe1d204a55c53568b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:12 +0000
Subject: [PATCH 085/119] fix: applying a one-vs-all or one-vs-one learner is
 one log entry

---
 nimble/core/interfaces/universal_interface.py | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 16510af..062b0aa 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1872,12 +1872,28 @@ class TrainedLearners(TrainedLearner):
         --------
         TODO
         """
+        startTime = time.process_time()
+        mergedArguments = mergeArguments(arguments, kwarguments)
+
+        ret = self._multiClassApply(testX, mergedArguments, scoreMode)
+
+        totalTime = time.process_time() - startTime
+
+        handleLogging(useLog, 'TLrun', self, "apply", mergedArguments,
+                      testData=testX, time=totalTime, returned=ret)
+
+        return ret
+
+    def _multiClassApply(self, testX, arguments, scoreMode):
+        """
+        Combine the results of each of the trained learners.
+        """
         rawPredictions = None
         #1 VS All
         if self.method == 'OneVsAll':
             for trainedLearner in self._trainedLearnersList:
                 oneLabelResults = trainedLearner.apply(testX, arguments,
-                                                       useLog=useLog)
+                                                       useLog=False)
                 label = trainedLearner.label
                 # put all results into one Base container; same type as trainX
                 if rawPredictions is None:
@@ -1961,7 +1977,7 @@ class TrainedLearners(TrainedLearner):
             for trainedLearner in self._trainedLearnersList:
                 # train classifier on that data; apply it to the test set
                 partialResults = trainedLearner.apply(testX, arguments,
-                                                      useLog=useLog)
+                                                      useLog=False)
                 # put predictions into table of predictions
                 if rawPredictions is None:
                     rawPredictions = partialResults.copy(to="List")
-- 
2.43.0


From 9671074903047de3db944aa56f26702c8099c52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:09 +0000
Subject: [PATCH 086/119] fix: points and features without names can be
 repeated

---
 nimble/core/data/axis.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index cf3c504..31abaf6 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -818,23 +818,27 @@ class Axis(ABC):
             namesToRepeat = ftNames
             ptNames = self._base.points._getNamesNoGeneration()
 
+        def copyName(name, i):
+            # vectors without a name remain unnamed
+            return None if name is None else name + "_" + str(i + 1)
+
         if copyVectorByVector and namesToRepeat is not None:
             origNames = namesToRepeat.copy()
             for idx, name in enumerate(origNames):
                 for i in range(totalCopies):
                     currIdx = (totalCopies * idx) + i
                     if currIdx < len(origNames):
-                        namesToRepeat[currIdx] = name + "_" + str(i + 1)
+                        namesToRepeat[currIdx] = copyName(name, i)
                     else:
-                        namesToRepeat.append(name + "_" + str(i + 1))
+                        namesToRepeat.append(copyName(name, i))
         elif namesToRepeat is not None:
             origNames = namesToRepeat.copy()
             for i in range(totalCopies):
                 for idx, name in enumerate(origNames):
                     if i == 0:
-                        namesToRepeat[idx] = name + "_" + str(i + 1)
+                        namesToRepeat[idx] = copyName(name, i)
                     else:
-                        namesToRepeat.append(name + "_" + str(i + 1))
+                        namesToRepeat.append(copyName(name, i))
 
         ret = createDataNoValidation(self._base.getTypeString(), repeated,
                                      pointNames=ptNames, featureNames=ftNames)
-- 
2.43.0


From 2d7f22a9ea1b4eac9345485f367578e1c4d08dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:07 +0000
Subject: [PATCH 087/119] fix: features without a name can be replaced with
 binary features

---
 nimble/core/data/base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 12ba4de..5766d07 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -585,10 +585,8 @@ class Base(ABC):
                                   useLog=False)
         ftNames = []
 
-        if replace.features._namesCreated():
-            prefix = replace.features.getName(0) + "="
-        else:
-            prefix = str(index) + '='
+        name = replace.features.getName(0)
+        prefix = (str(index) if name is None else name) + "="
         for val in uniqueVals:
             ftNames.append(prefix + str(val))
         binaryObj.features.setNames(ftNames, useLog=False)
-- 
2.43.0


From 5a33de565a85336e48d7cbf0fff7395288cd6bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:31 +0000
Subject: [PATCH 088/119] fix: unique points and features of numeric Sparse
 data are available

---
 nimble/core/data/sparseAxis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/sparseAxis.py b/nimble/core/data/sparseAxis.py
index e71e67c..7d93972 100644
--- a/nimble/core/data/sparseAxis.py
+++ b/nimble/core/data/sparseAxis.py
@@ -357,7 +357,7 @@ class SparseAxis(Axis, metaclass=ABCMeta):
         if hasOffAxisNames:
             offAxisNames = getOffAxisNames()
 
-        uniqueData = np.array(uniqueData, dtype=np.object_)
+        uniqueData = np.array(uniqueData, dtype=data.dtype)
         if self._isPoint:
             shape = (axisCount, len(self._base.features))
             uniqueCoo = scipy.sparse.coo_matrix(
-- 
2.43.0


From 1ae2df4c698fb2537cfa14ddf17ca96dd840e3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:13 +0000
Subject: [PATCH 089/119] fix: features without a name can be expanded after
 their names were asked for

---
 nimble/core/data/points.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nimble/core/data/points.py b/nimble/core/data/points.py
index a3d4515..6611835 100644
--- a/nimble/core/data/points.py
+++ b/nimble/core/data/points.py
@@ -2190,10 +2190,10 @@ class Points(ABC):
             if numExpanded > 1:
                 for suffix in featuresWithValues:
                     if not isinstance(suffix, str):
+                        name = None
                         if self._base.features._namesCreated():
-                            suffix = self._base.features.getName(suffix)
-                        else:
-                            suffix = str(suffix)
+                            name = self._base.features.getName(suffix)
+                        suffix = str(suffix) if name is None else name
                     concat = prefix + '_' + suffix
                     newFtNames.append(concat)
             else:
-- 
2.43.0


From c046a88877e2be6e085e857a371bf1fe67fd9197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:16 +0000
Subject: [PATCH 090/119] fix: sorting sparse data is one step, so an
 interrupted reading leaves the data as it was

---
 nimble/core/data/sparse.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 604bff2..97e4d09 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -20,6 +20,7 @@ Class extending Base, defining an object to hold and manipulate a scipy
 coo_matrix.
 """
 
+import copy
 import warnings
 from collections import defaultdict
 import numbers
@@ -363,7 +364,7 @@ class Sparse(Base):
 
     def _referenceFrom_implementation(self, other, kwargs):
         super()._referenceFrom_implementation(other, kwargs)
-        self._sorted = other._sorted
+        self._sorted = dict(other._sorted)
 
     def _copy_implementation(self, to):
         if to in nimble.core.data.available:
@@ -1268,12 +1269,16 @@ class Sparse(Base):
             # sort least significant axis first
             sortKeys = np.lexsort((sortOff, sortPrime))
 
-            self._data.data = self._data.data[sortKeys]
-            self._data.row = self._data.row[sortKeys]
-            self._data.col = self._data.col[sortKeys]
-
-            self._sorted['axis'] = axis
+            # replaced in one step so that an interrupted sort cannot leave
+            # the values apart from their locations
+            ordered = copy.copy(self._data)
+            ordered.data = self._data.data[sortKeys]
+            ordered.row = self._data.row[sortKeys]
+            ordered.col = self._data.col[sortKeys]
             self._sorted['indices'] = None
+            self._sorted['axis'] = None
+            self._data = ordered
+            self._sorted['axis'] = axis
 
         if setIndices:
             if axis == "point":
@@ -1316,8 +1321,8 @@ class Sparse(Base):
         return self._data.dtype in [bool, np.bool_]
 
     def _resetSorted(self):
-        self._sorted['axis'] = None
         self._sorted['indices'] = None
+        self._sorted['axis'] = None
 
 ###################
 # Generic Helpers #
-- 
2.43.0


From c75fc021b1a462aa9620dbb4a096b1e1facf1576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:49 +0000
Subject: [PATCH 091/119] fix: matrix multiplication, stretching, plotting and
 hdf5 files do not convert the data they read

---
 nimble/core/data/base.py    | 31 +++++++++++++++++++++----------
 nimble/core/data/stretch.py | 15 +++++----------
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 5766d07..754661a 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1955,6 +1955,8 @@ class Base(ABC):
                 # each object in the file is a point, even if there is only one
                 hdf.attrs['nimblePoints'] = True
                 for name, point in zip(pnames, self.points):
+                    # a copy because conversion is inplace
+                    point = point.copy()
                     point._convertToNumericTypes()
                     asArray = point.copy('numpy array')
                     if len(self._dims) == 2:
@@ -2926,13 +2928,15 @@ class Base(ABC):
     @pyplotRequired
     def _plot(self, includeColorbar, outPath, show, title, xAxisLabel,
               yAxisLabel, **kwargs):
-        self._convertToNumericTypes(allowBool=False)
+        # a copy because conversion is inplace
+        toPlot = self.copy()
+        toPlot._convertToNumericTypes(allowBool=False)
 
         if 'cmap' not in kwargs:
             kwargs['cmap'] = "gray"
 
         # matshow generates a new figure b/c existing axes are an issue.
-        plt.matshow(self.copy('numpyarray'), **kwargs)
+        plt.matshow(toPlot.copy('numpyarray'), **kwargs)
 
         if includeColorbar:
             plt.colorbar()
@@ -4947,14 +4951,8 @@ class Base(ABC):
             msg += "empty"
             raise ImproperObjectAction(msg)
 
-        try:
-            self._convertToNumericTypes()
-        except ImproperObjectAction:
-            self._numericValidation()
-        try:
-            other._convertToNumericTypes()
-        except ImproperObjectAction:
-            other._numericValidation(right=True)
+        # conversion is inplace and must not reach the objects of the user
+        self, other = self._numericCopy(), other._numericCopy(right=True)
 
         if opName.startswith('__r'):
             caller = other
@@ -5428,6 +5426,19 @@ class Base(ABC):
             msg += 'operation.'
             raise ImproperObjectAction(msg) from e
 
+    def _numericCopy(self, right=False, **conversionKwargs):
+        """
+        A copy of this object converted to numeric type, or this object
+        if it is not possible to convert values that are all numeric.
+        """
+        try:
+            ret = self.copy()
+            ret._convertToNumericTypes(**conversionKwargs)
+            return ret
+        except (ImproperObjectAction, ValueError):
+            self._numericValidation(right=right)
+            return self
+
     def _genericBinaryOperations(self, opName, other):
         conversionKwargs = {}
         if 'pow' in opName:
diff --git a/nimble/core/data/stretch.py b/nimble/core/data/stretch.py
index 4436d40..40ca834 100644
--- a/nimble/core/data/stretch.py
+++ b/nimble/core/data/stretch.py
@@ -188,18 +188,13 @@ class Stretch(object):
         if 'pow' in opName:
             conversionKwargs['allowInt'] = False
             conversionKwargs['allowBool'] = False
-        try:
-            self._source._convertToNumericTypes(**conversionKwargs)
-        except ImproperObjectAction:
-            self._source._numericValidation()
+        # conversion is inplace and must not reach the objects of the user
+        self = self._source._numericCopy(**conversionKwargs).stretch
         if isinstance(other, Stretch):
-            otherSource = other._source
+            otherSource = other._source._numericCopy(True, **conversionKwargs)
+            other = otherSource.stretch
         else:
-            otherSource = other
-        try:
-            otherSource._convertToNumericTypes(**conversionKwargs)
-        except ImproperObjectAction:
-            otherSource._numericValidation(right=True)
+            other = otherSource = other._numericCopy(True, **conversionKwargs)
 
         self._stretchArithmetic_validation(opName, other)
 
-- 
2.43.0


From 1814895de0d059970c60c686ba765175fb2ccbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:49 +0000
Subject: [PATCH 092/119] fix: asking for the names of unnamed data does not
 change what is made of it

---
 nimble/core/data/axis.py | 4 +++-
 nimble/core/data/base.py | 7 +++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 31abaf6..6e2b18e 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1022,7 +1022,9 @@ class Axis(ABC):
         self.names = {}
 
     def _getNamesNoGeneration(self):
-        if not self._namesCreated():
+        # default names are created when names are asked for; they are the
+        # same as having no names
+        if not self._namesCreated() or (self.namesInverse and not self.names):
             return None
         return self._getNames()
 
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 754661a..165b634 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -5987,12 +5987,11 @@ class Base(ABC):
         return lTable, lColWidths, fNames
 
     def _equalPointNames(self, other):
-        return equalNames(self.points._getNamesNoGeneration(),
-                          other.points._getNamesNoGeneration())
+        return equalNames(self.points.namesInverse, other.points.namesInverse)
 
     def _equalFeatureNames(self, other):
-        return equalNames(self.features._getNamesNoGeneration(),
-                          other.features._getNamesNoGeneration())
+        return equalNames(self.features.namesInverse,
+                          other.features.namesInverse)
 
     def _validateEqualNames(self, leftAxis, rightAxis, callSym, other):
 
-- 
2.43.0


From 9cbe89a435b5e6af1f762187a6aa8d860d25d21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:19 +0000
Subject: [PATCH 093/119] fix: the absolute value keeps the point names of data
 without feature names

---
 nimble/core/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 165b634..89074a8 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -5240,7 +5240,7 @@ class Base(ABC):
         if self.features._namesCreated():
             ret.features.setNames(self.features.getNames(), useLog=False)
         else:
-            ret.points.setNames(None, useLog=False)
+            ret.features.setNames(None, useLog=False)
 
         ret._name = None
         ret._absPath = self.absolutePath
-- 
2.43.0


From 5e2d1ef6b084a06562a2893df752abb8268f8170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:48 +0000
Subject: [PATCH 094/119] fix: default names do not satisfy the need for names
 of a merge

---
 nimble/core/data/base.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 89074a8..23d3dac 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4718,15 +4718,14 @@ class Base(ABC):
 
     def _genericMergeFrontend(self, other, point, feature, onFeature):
         # validation
-        bothPtNamesCreated = (self.points._namesCreated()
-                              and other.points._namesCreated())
-        if onFeature is None and not bothPtNamesCreated:
+        # default names are the same as having no names
+        bothHavePtNames = self.points.names and other.points.names
+        if onFeature is None and not bothHavePtNames:
             msg = "Point names are required in both objects when "
             msg += "onFeature is None"
             raise InvalidArgumentValueCombination(msg)
-        bothFtNamesCreated = (self.features._namesCreated()
-                              and other.features._namesCreated())
-        if not bothFtNamesCreated:
+        bothHaveFtNames = self.features.names and other.features.names
+        if not bothHaveFtNames:
             msg = "Feature names are required in both objects"
             raise InvalidArgumentValueCombination(msg)
 
-- 
2.43.0


From c251b09ed814d4193a6a51c92f46321e5ad6b0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:54 +0000
Subject: [PATCH 095/119] fix: the result of arithmetic does not share its
 dimensions with the operand

---
 nimble/core/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 23d3dac..36725fa 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -5483,7 +5483,7 @@ class Base(ABC):
             obj._diagnoseFailureAndRaiseException(opName, other, error)
             raise # backup; should be diagnosed and raised above
 
-        ret._dims = self._dims
+        ret._dims = self._dims.copy()
         if opName.startswith('__i'):
             self._referenceFrom(ret, paths=(self._absPath, self._relPath))
             ret = self
-- 
2.43.0


From b4654723f0c15989fd0ec90730c523b2a93be383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:25 +0000
Subject: [PATCH 096/119] fix: views refuse the assignment of elements like
 every other change

---
 nimble/core/data/views.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nimble/core/data/views.py b/nimble/core/data/views.py
index 4e36deb..6929c63 100644
--- a/nimble/core/data/views.py
+++ b/nimble/core/data/views.py
@@ -225,6 +225,10 @@ class BaseView(Base, metaclass=ABCMeta):
               force=False, *, useLog=None):
         readOnlyException('merge')
 
+    @baseExceptionDoc
+    def __setitem__(self, key, value):
+        readOnlyException("__setitem__")
+
     ###############################################################
     ###############################################################
     ###   Subclass implemented numerical operation functions    ###
-- 
2.43.0


From 05c5161c1657e906d4467c421fb7c83e0ae9dead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:26 +0000
Subject: [PATCH 097/119] fix: multiplication with a scipy matrix no longer
 transposes the data it then refuses

---
 nimble/core/data/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 36725fa..e89f4b8 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4938,6 +4938,11 @@ class Base(ABC):
 
     def _genericMatMul_implementation(self, opName, other):
         if not isinstance(other, Base):
+            if scipy.nimbleAccessible() and scipy.sparse.issparse(other):
+                # the reflected operation of scipy would transpose this
+                # object, inplace
+                msg = f"{opName} is not possible with a {type(other)}"
+                raise TypeError(msg)
             return NotImplemented
         # Test element type self
         if len(self.points) == 0 or len(self.features) == 0:
-- 
2.43.0


From 8552715751cca8f95370a410ccd8078574af267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:01 +0000
Subject: [PATCH 098/119] fix: numpy copies of data with more than two
 dimensions are independent

---
 nimble/core/data/dataframe.py | 3 +--
 nimble/core/data/matrix.py    | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index cbf7251..3a27031 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -244,8 +244,7 @@ class DataFrame(Base):
                 arr = arr.reshape(self._dims)
             if to == 'pythonlist':
                 return arr.tolist()
-            if needsReshape:
-                return arr
+            # the reshaped array could still share the data of this object
             return arr.copy()
 
         if needsReshape:
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index c9bfe60..c3ce5b7 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -194,7 +194,7 @@ class Matrix(Base):
         needsReshape = len(self._dims) > 2
         if to == 'numpyarray':
             if needsReshape:
-                return self._data.reshape(self._dims)
+                return self._data.copy().reshape(self._dims)
             return self._data.copy()
         if needsReshape:
             data = np.empty(self._dims[:2], dtype=np.object_)
-- 
2.43.0


From 7a8a917cb497eefdaf5d57401b3b12714a255918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:15 +0000
Subject: [PATCH 099/119] fix: appending the features of data with more than
 two dimensions to a List keeps it consistent

---
 nimble/core/data/listAxis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/listAxis.py b/nimble/core/data/listAxis.py
index 6aee649..7b1a2ab 100644
--- a/nimble/core/data/listAxis.py
+++ b/nimble/core/data/listAxis.py
@@ -276,7 +276,8 @@ class ListFeatures(ListAxis, Features):
         provided index in this object, the remaining points from this
         object will continue to the right of the inserted points.
         """
-        insert = toInsert.copy('pythonlist')
+        with toInsert._treatAs2D(): # the values of each point, not nested
+            insert = toInsert.copy('pythonlist')
         if insertBefore != 0 and insertBefore != len(self):
             breakIdx = insertBefore - 1
             restartIdx = insertBefore
-- 
2.43.0


From de21d75b90ea7b40f4b8b334a21bf0b7a80e8caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:35 +0000
Subject: [PATCH 100/119] fix: trainAndTestSets accepts a labels object with
 unnamed features

---
 nimble/core/data/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index e89f4b8..ec48a3f 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1692,7 +1692,8 @@ class Base(ABC):
                     labelNames = labels.features.getNames()
                     # filter names for ones that overlap with self
                     namesInBoth = [name for name in labelNames
-                                   if self.features.hasName(name)]
+                                   if name is not None
+                                   and self.features.hasName(name)]
                     if namesInBoth:
                         trainX.features.delete(namesInBoth, useLog=False)
                         testX.features.delete(namesInBoth, useLog=False)
-- 
2.43.0


From 497a2c6d735bfd5c3ec272aa416327612b77628c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:23 +0000
Subject: [PATCH 101/119] fix: replaceRectangle with a view uses the values of
 the view

---
 nimble/core/data/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index ec48a3f..8035883 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4011,6 +4011,11 @@ class Base(ABC):
                 raise InvalidArgumentValueCombination(msg)
             if replaceWith.getTypeString() != self.getTypeString():
                 replaceWith = replaceWith.copy(to=self.getTypeString())
+            elif (replaceWith is self
+                  or isinstance(replaceWith, nimble.core.data.BaseView)):
+                # do not read from values that are being replaced and the
+                # values of a view are not always limited to the view
+                replaceWith = replaceWith.copy()
         elif looksNumeric(replaceWith):
             if pointEnd is None:
                 msg = "pointEnd is required when replaceWith is a constant"
-- 
2.43.0


From 778e797d81e0d59a84f3dea8b33c0319ecbcc8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:44 +0000
Subject: [PATCH 102/119] fix: merge matches features by name after one of them
 has been renamed

---
 nimble/core/data/axis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 6e2b18e..76e976a 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1525,7 +1525,8 @@ class Axis(ABC):
             return matches
         allNames = self._getNames() + otherAxis.getNames()
         if len(set(allNames)) != len(allNames):
-            for name in self.names:
+            # in the order of the axis, names follows the order of assignment
+            for name in sorted(self.names, key=self.names.get):
                 if name in otherAxis.names:
                     matches.append(name)
         return matches
-- 
2.43.0


From 9a9869461fe003b052adcd0608d6882ce829f012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:24 +0000
Subject: [PATCH 103/119] fix: appending, inserting or merging a view uses the
 values of the view

---
 nimble/core/data/axis.py | 3 +++
 nimble/core/data/base.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 76e976a..7e68fe8 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -629,6 +629,9 @@ class Axis(ABC):
         self._validateInsertableData(toInsert, append)
         if self._base.getTypeString() != toInsert.getTypeString():
             insertObj = toInsert.copy(to=self._base.getTypeString())
+        elif isinstance(toInsert, nimble.core.data.BaseView):
+            # the internal data of a view is not always limited to the view
+            insertObj = toInsert.copy()
         else:
             insertObj = toInsert
 
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 8035883..9f9c628 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4766,6 +4766,9 @@ class Base(ABC):
 
         if self.getTypeString() != other.getTypeString():
             other = other.copy(to=self.getTypeString())
+        elif isinstance(other, nimble.core.data.BaseView):
+            # the internal data of a view is not always limited to the view
+            other = other.copy()
         if point == 'union' and onFeature is not None:
             # the merged points will be sorted by onFeature so verify the
             # values can be sorted before modifying this object
-- 
2.43.0


From b698b2ce326f523d5e3c6cb1338903be7c6c4c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:42 +0000
Subject: [PATCH 104/119] fix: merging Sparse data keeps zeros and fills
 missing values

---
 nimble/core/data/sparse.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 97e4d09..95773dd 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -696,8 +696,20 @@ class Sparse(Base):
         nextPt = 0
         numPts = 0
 
-        for ptIdxL, target in enumerate(leftData[leftCol == onIdxL]):
-            rowIdxR = np.where(rightData[rightCol == onIdxR] == target)[0]
+        def allKeys(data, row, col, onIdx, numPoints):
+            # zeros are not stored so must be included for every point
+            keys = np.zeros((numPoints,), dtype=np.object_)
+            onIdxData = col == onIdx
+            keys[row[onIdxData]] = data[onIdxData]
+            return keys
+
+        leftKeys = allKeys(leftData, leftRow, leftCol, onIdxL,
+                           len(self.points))
+        rightKeys = allKeys(rightData, rightRow, rightCol, onIdxR,
+                            len(other.points))
+
+        for ptIdxL, target in enumerate(leftKeys):
+            rowIdxR = np.where(rightKeys == target)[0]
             if len(rowIdxR) > 0:
                 for ptIdxR in rowIdxR:
                     ptL = np.zeros((tempFtsL,), dtype=np.object_)
@@ -720,7 +732,7 @@ class Sparse(Base):
                         for i, value in enumerate(ptL[matchingFtIdx[0]]):
                             if value != value:
                                 fill = ptR[matchingFtIdx[1]][i]
-                                ptL[matchingFtIdx[0]][i] = fill
+                                ptL[matchingFtIdx[0][i]] = fill
                     ptR = ptR[[i for i in range(len(ptR))
                                if i not in matchingFtIdx[1]]]
                     pt = np.append(ptL, ptR)
@@ -758,7 +770,7 @@ class Sparse(Base):
                 numPts += 1
 
         if point == 'union':
-            for ptIdxR, target in enumerate(rightData[rightCol == onIdxR]):
+            for ptIdxR, target in enumerate(rightKeys):
                 if target not in matched:
                     nanList = [np.nan] * tempFtsL
                     ptL = np.array(nanList, dtype=np.object_)
@@ -767,10 +779,9 @@ class Sparse(Base):
                     ptR[rightCol[inRowR]] = rightData[inRowR]
                     fill = ptR[matchingFtIdx[1]]
                     ptL[matchingFtIdx[0]] = fill
-                    # only unmatched points from right
-                    notMatchedR = np.in1d(rightCol, matchingFtIdx[1],
-                                          invert=True)
-                    ptR = rightData[(rightRow == ptIdxR) & (notMatchedR)]
+                    # only unmatched features from right
+                    ptR = ptR[[i for i in range(len(ptR))
+                               if i not in matchingFtIdx[1]]]
                     pt = np.append(ptL, ptR)
                     if feature == "intersection":
                         pt = pt[matchingFtIdx[0]]
@@ -793,7 +804,7 @@ class Sparse(Base):
         elif feature == "left":
             numFts = len(self.features)
         if len(mergedData) == 0:
-            mergedData = []
+            mergedData = np.empty((0,))
 
         mergedData = mergedData.astype(np.float64)
         self._dims = [numPts, numFts]
-- 
2.43.0


From dffb1dea31bc3e6ca4ab107d324d4d3821139f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:01 +0000
Subject: [PATCH 105/119] fix: merging Matrix data fills missing values

---
 nimble/core/data/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index c3ce5b7..1a36ff8 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -363,7 +363,7 @@ class Matrix(Base):
                         for i, value in enumerate(ptL[matchingFtIdx[0]]):
                             if value != value:
                                 fill = ptR[matchingFtIdx[1]][i]
-                                ptL[matchingFtIdx[0]][i] = fill
+                                ptL[matchingFtIdx[0][i]] = fill
                     ptR = np.delete(ptR, matchingFtIdx[1])
                     pt = np.concatenate((ptL, ptR)).flatten()
                     merged.append(pt)
-- 
2.43.0


From 0fe68ae774c519cb7f0e2e684652191ab5054520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:01 +0000
Subject: [PATCH 106/119] fix: merging DataFrame data keeps the points in the
 order of their names

---
 nimble/core/data/dataframe.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index 3a27031..12b7e11 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -376,8 +376,15 @@ class DataFrame(Base):
                 idxRange = range(self.shape[0], self.shape[0] + other.shape[0])
                 tmpDfR.index = list(idxRange)
 
+            # the order of the merged points must match the order of the names,
+            # pandas orders them differently
+            order = list(data.index)
+            left = set(order)
+            order.extend(i for i in tmpDfR.index if i not in left)
             data = data.merge(tmpDfR, how=point, left_index=True,
                                           right_index=True)
+            merged = set(data.index)
+            data = data.loc[[i for i in order if i in merged]]
         else:
             onIdxL = data.columns.get_loc(onFeature)
             onIdxR = tmpDfR.columns.get_loc(onFeature) + numColsL
-- 
2.43.0


From 104d43fc9fade2adce60047ecd9d014cfcba0f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:51 +0000
Subject: [PATCH 107/119] fix: data loaded from a pandas object with labels can
 be changed

---
 nimble/core/data/dataframe.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index 12b7e11..cdc3fb0 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -76,6 +76,16 @@ class DataFrame(Base):
                 self._data = data
             else:
                 self._data = data.copy()
+            # names are not stored in the internal data, where the labels must
+            # always be the default
+            index = pd.RangeIndex(self._data.shape[0])
+            columns = pd.RangeIndex(self._data.shape[1])
+            if not (self._data.index.equals(index)
+                    and self._data.columns.equals(columns)):
+                # labels of the provided object must not change
+                self._data = self._data.copy(deep=False)
+                self._data.index = index
+                self._data.columns = columns
         else:
             self._data = pd.DataFrame(data, copy=True)
 
-- 
2.43.0


From 2c7d1718b068074bb2aaba0c15febd1c54bace30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:00 +0000
Subject: [PATCH 108/119] fix: unflatten keeps names when some points or
 features are unnamed

---
 nimble/core/data/base.py | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 9f9c628..a1027a8 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4192,29 +4192,14 @@ class Base(ABC):
             else:
                 return (None, None)
 
-        pNames = []
-        fNames = []
-        allPtDefault = True
-        allFtDefault = True
-        for pName, fName in splitNames:
-            if pName not in pNames:
-                if pName.startswith('_PT#'):
-                    pNames.append(None)
-                else:
-                    pNames.append(pName)
-                    if allPtDefault:
-                        allPtDefault = False
-            if fName not in fNames:
-                if fName.startswith('_FT#'):
-                    fNames.append(None)
-                else:
-                    fNames.append(fName)
-                    if allFtDefault:
-                        allFtDefault = False
-
-        if allPtDefault:
+        # a label can stand for a default name, so it is kept until the end
+        pLabels = list(dict.fromkeys(pName for pName, _ in splitNames))
+        fLabels = list(dict.fromkeys(fName for _, fName in splitNames))
+        pNames = [None if p.startswith('_PT#') else p for p in pLabels]
+        fNames = [None if f.startswith('_FT#') else f for f in fLabels]
+        if all(p is None for p in pNames):
             pNames = None
-        if allFtDefault:
+        if all(f is None for f in fNames):
             fNames = None
 
         return pNames, fNames
-- 
2.43.0


From 6e0a08e78604e17b9b26a344bd2cab8269d63add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:01 +0000
Subject: [PATCH 109/119] fix: a view of a view finds points and features by
 their names

---
 nimble/core/data/views.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/views.py b/nimble/core/data/views.py
index 6929c63..2042aff 100644
--- a/nimble/core/data/views.py
+++ b/nimble/core/data/views.py
@@ -119,25 +119,25 @@ class BaseView(Base, metaclass=ABCMeta):
         if pointStart is None:
             psAdj = None if len(self._source.points) == 0 else self._pStart
         else:
-            psIndex = self._source.points.getIndex(pointStart)
+            psIndex = self.points.getIndex(pointStart)
             psAdj = psIndex + self._pStart
 
         if pointEnd is None:
             peAdj = None if len(self._source.points) == 0 else self._pEnd - 1
         else:
-            peIndex = self._source.points.getIndex(pointEnd)
+            peIndex = self.points.getIndex(pointEnd)
             peAdj = peIndex + self._pStart
 
         if featureStart is None:
             fsAdj = None if len(self._source.features) == 0 else self._fStart
         else:
-            fsIndex = self._source.features.getIndex(featureStart)
+            fsIndex = self.features.getIndex(featureStart)
             fsAdj = fsIndex + self._fStart
 
         if featureEnd is None:
             feAdj = None if len(self._source.features) == 0 else self._fEnd - 1
         else:
-            feIndex = self._source.features.getIndex(featureEnd)
+            feIndex = self.features.getIndex(featureEnd)
             feAdj = feIndex + self._fStart
 
         return self._source._view_backend(psAdj, peAdj, fsAdj, feAdj,
-- 
2.43.0


From 661c570ef7a03b3b318d4d72413be8c95c22df52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:01 +0000
Subject: [PATCH 110/119] fix: replacing a Sparse feature with binary features
 includes its zeros

---
 nimble/core/data/sparse.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 95773dd..a6f3af8 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -823,6 +823,12 @@ class Sparse(Base):
             binaryRow.append(ptIdx)
             binaryCol.append(ftIdx)
             binaryData.append(1)
+        if 0 in uniqueIdx:
+            # zeros are not stored
+            for ptIdx in set(range(len(self.points))).difference(binaryRow):
+                binaryRow.append(ptIdx)
+                binaryCol.append(uniqueIdx[0])
+                binaryData.append(1)
         shape = (len(self.points), len(uniqueIdx))
         binaryCoo = scipy.sparse.coo_matrix(
             (binaryData, (binaryRow, binaryCol)), shape=shape)
-- 
2.43.0


From a88c3688fb84e8f3ce76586c5c5b7f9ebdfd21e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:01 +0000
Subject: [PATCH 111/119] fix: Sparse data stays numeric after splitting a
 feature into numbers

---
 nimble/core/data/sparseAxis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/sparseAxis.py b/nimble/core/data/sparseAxis.py
index 7d93972..6e5c062 100644
--- a/nimble/core/data/sparseAxis.py
+++ b/nimble/core/data/sparseAxis.py
@@ -508,7 +508,8 @@ class SparseFeatures(SparseAxis, Features):
                        in range(len(self._base.points))]
             tmpCol = np.concatenate((tmpCol, newCols))
 
-        tmpData = np.array(tmpData, dtype=np.object_)
+        if not np.issubdtype(tmpData.dtype, np.number):
+            tmpData = np.array(tmpData, dtype=np.object_)
         shape = (len(self._base.points), numRetFeatures)
         self._base._data = scipy.sparse.coo_matrix((tmpData, (tmpRow, tmpCol)),
                                                    shape=shape)
-- 
2.43.0


From cc20977fc2e662b4036868213cc15e667b27cd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:01 +0000
Subject: [PATCH 112/119] fix: views of Sparse data can be pickled

---
 nimble/core/data/sparse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index a6f3af8..a670502 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -120,6 +120,11 @@ class Sparse(Base):
                 def _check_override(self):
                     pass
 
+                def __reduce__(self):
+                    # this class is local, so it cannot be pickled itself
+                    return (scipy.sparse.coo_matrix,
+                            ((self.data, (self.row, self.col)), self.shape))
+
             Sparse._cooMatrixSkipCheck = coo_matrix_skipcheck
 
         self._sorted = {'axis': None, 'indices': None}
-- 
2.43.0


From 9dc3eacd09d9e99b912bcc96321764d836de762b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:12 +0000
Subject: [PATCH 113/119] fix: merge on a feature keeping the left features
 matches the points by that feature

---
 nimble/core/data/list.py   | 3 ++-
 nimble/core/data/matrix.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index 8af51ab..87744f6 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -387,7 +387,8 @@ class List(Base):
             if feature in ["intersection", "left"]:
                 onFeatureIdx = self.features.getIndex(onFeature)
                 onIdxLoc = matchingFtIdx[0].index(onFeatureIdx)
-                onIdxL = onIdxLoc
+                # left only contains the matching features when intersection
+                onIdxL = onIdxLoc if feature == "intersection" else onFeatureIdx
                 onIdxR = onIdxLoc
                 right = [[row[i] for i in matchingFtIdx[1]]
                          for row in other._data]
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 1a36ff8..c3f08f2 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -263,7 +263,8 @@ class Matrix(Base):
             if feature in ["intersection", "left"]:
                 onFeatureIdx = self.features.getIndex(onFeature)
                 onIdxLoc = matchingFtIdx[0].index(onFeatureIdx)
-                onIdxL = onIdxLoc
+                # left only contains the matching features when intersection
+                onIdxL = onIdxLoc if feature == "intersection" else onFeatureIdx
                 onIdxR = onIdxLoc
                 right = otherArr[:, matchingFtIdx[1]]
                 # matching indices in right were sorted when slicing above
-- 
2.43.0


From 2324baa23cbdfa84960f4f3c29ee45dc9697392a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:31 +0000
Subject: [PATCH 114/119] fix: merge fills the missing values of each matching
 point separately

---
 nimble/core/data/list.py   | 7 ++++---
 nimble/core/data/matrix.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index 87744f6..ab024db 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -479,11 +479,12 @@ class List(Base):
             if len(match) > 0:
                 matchMapper[pt[onIdxL]] = match
 
-        for ptL in left:
-            target = ptL[onIdxL]
+        for leftPt in left:
+            target = leftPt[onIdxL]
             if target in matchMapper:
                 matchesR = matchMapper[target]
                 for ptR in matchesR:
+                    ptL = leftPt.copy() # each match fills its own values
                     # check for conflicts between matching features
                     matches = [ptL[i] == ptR[j] for i, j
                                in zip(matchingFtIdx[0], matchingFtIdx[1])]
@@ -510,7 +511,7 @@ class List(Base):
                 matched.append(target)
             elif point in ['union', 'left']:
                 ptR = [np.nan] * (len(right[0]) - len(matchingFtIdx[1]))
-                pt = ptL + ptR
+                pt = leftPt + ptR
                 merged.append(pt)
 
         if point == 'union':
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index c3f08f2..10d6bc2 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -342,11 +342,12 @@ class Matrix(Base):
             matches = right[right[:, onIdxR] == pt[onIdxL]]
             if len(matches) > 0:
                 matchMapper[pt[onIdxL]] = matches
-        for ptL in left:
-            target = ptL[onIdxL]
+        for leftPt in left:
+            target = leftPt[onIdxL]
             if target in matchMapper:
                 matchesR = matchMapper[target]
                 for ptR in matchesR:
+                    ptL = leftPt.copy() # each match fills its own values
                     # check for conflicts between matching features
                     matches = ptL[matchingFtIdx[0]] == ptR[matchingFtIdx[1]]
                     nansL = np.array([x != x for x
@@ -370,7 +371,7 @@ class Matrix(Base):
                     merged.append(pt)
                 matched.append(target)
             elif point in ['union', 'left']:
-                ptL = ptL.reshape(1, -1)
+                ptL = leftPt.reshape(1, -1)
                 ptR = np.ones((1, unmatchedPtCountR)) * np.nan
                 pt = np.append(ptL, ptR)
                 merged.append(pt)
-- 
2.43.0


From 3d4df3e731a2ad584e0cb7f13f2d452a59baaac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:52 +0000
Subject: [PATCH 115/119] fix: Sparse data made from an object array of numbers
 is numeric

---
 nimble/core/data/sparse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index a670502..5ab60c0 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -97,6 +97,11 @@ class Sparse(Base):
 
             self._data = scipy.sparse.coo_matrix(data)
 
+        if self._data.dtype == np.object_ and all(
+                isinstance(v, numbers.Real) for v in self._data.data):
+            # numbers do not need a dtype that most of scipy does not support
+            self._data = self._data.astype(np.float64)
+
         # class attribute prevents repeated object creation for subsequent
         # instances but set here to avoid deferred scipy import issues
         if Sparse._cooMatrixSkipCheck is None:
-- 
2.43.0


From 30c69dfe53ebeff3c9f9ffb5eef1af1d3f9682cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:49 +0000
Subject: [PATCH 116/119] fix: calculating on elements keeps every returned
 value

---
 nimble/core/data/_dataHelpers.py | 21 +++++++++++++++++++++
 nimble/core/data/base.py         | 11 +++--------
 nimble/core/data/sparse.py       |  6 +-----
 3 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 4a05b3c..2b16449 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -581,6 +581,27 @@ def wrapMatchFunctionFactory(matchFunc, elementwise=True):
 
     return wrappedMatch
 
+def vectorizeByValues(func):
+    """
+    Vectorize a function of one element.
+
+    np.vectorize uses the type of the first returned value for every value,
+    here the type must be able to represent each of the returned values.
+    """
+    vectorized = np.vectorize(func, otypes=[np.object_])
+
+    def wrapped(values):
+        ret = vectorized(values)
+        isBool = [isinstance(v, (bool, np.bool_)) for v in ret.flat]
+        if ret.size and all(isBool):
+            return ret.astype(np.bool_)
+        if (ret.size and not any(isBool)
+                and all(isinstance(v, numbers.Real) for v in ret.flat)):
+            return np.array(ret.tolist())
+        return ret
+
+    return wrapped
+
 def validateElementFunction(func, preserveZeros, skipNoneReturnValues,
                             funcName):
     """
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index a1027a8..84cfc86 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -50,6 +50,7 @@ from nimble._utility import tableString, prettyListString, quoteStrings
 from nimble._utility import _getStatsFunction, acceptedStats
 from .stretch import Stretch
 from ._dataHelpers import formatIfNeeded, validateInputString
+from ._dataHelpers import vectorizeByValues
 from ._dataHelpers import constructIndicesList
 from ._dataHelpers import createListOfDict, createDictOfList
 from ._dataHelpers import createDataNoValidation
@@ -1090,7 +1091,7 @@ class Base(ABC):
             optType = self.getTypeString()
         # Use vectorized for functions with oneArg
         if calculator.oneArg:
-            vectorized = np.vectorize(calculator)
+            vectorized = vectorizeByValues(calculator)
             values = self._calculate_implementation(
                 vectorized, points, features, preserveZeros)
 
@@ -1137,13 +1138,7 @@ class Base(ABC):
         toCalculate = self.copy(to='numpyarray')
         # array with only desired points and features
         toCalculate = toCalculate[points[:, None], features]
-        try:
-            return function(toCalculate)
-        except Exception: # pylint: disable=broad-except
-            # change output type of vectorized function to object to handle
-            # nonnumeric data
-            function.otypes = [np.object_]
-            return function(toCalculate)
+        return function(toCalculate)
 
     @limitedTo2D
     def countElements(self, condition):
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 5ab60c0..f402e61 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -248,11 +248,7 @@ class Sparse(Base):
                 col = [fPos for _, _, fPos in kept]
                 shape = (len(points), len(features))
             if len(data) > 0:
-                try:
-                    data = function(data)
-                except Exception: # pylint: disable=broad-except
-                    function.otypes = [np.object_]
-                    data = function(data)
+                data = function(data)
             else:
                 data = np.array([], dtype=float)
             # note: even if function transforms nonzero values into zeros
-- 
2.43.0


From 03490c49d664da50a8dcf261f4fa5a01a219e237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:57 +0000
Subject: [PATCH 117/119] fix: expanding features keeps the values of every
 kept feature

---
 nimble/core/data/_dataHelpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 2b16449..e548a95 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -392,7 +392,10 @@ def fillArrayWithExpandedFeatures(uniqueDict, namesIdx, uniqueNames,
     """
     fill = np.empty(shape=(len(uniqueDict), numRetFeatures), dtype=np.object_)
 
-    endSlice = slice(namesIdx + (len(uniqueNames) * numExpanded), None)
+    # fewer features are kept when those before namesIdx are expanded
+    numNewFts = len(uniqueNames) * numExpanded
+    namesIdx = min(namesIdx, numRetFeatures - numNewFts)
+    endSlice = slice(namesIdx + numNewFts, None)
     for i, point in enumerate(uniqueDict):
         fill[i, :namesIdx] = point[:namesIdx]
         for j, name in enumerate(uniqueNames):
-- 
2.43.0


From 1fab6d6cfb8626502d5a7dc222b33b041d9151c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:57 +0000
Subject: [PATCH 118/119] fix: collapsing and expanding features of Sparse data
 with numbers and zeros

---
 nimble/core/data/sparseAxis.py | 74 +++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 37 deletions(-)

diff --git a/nimble/core/data/sparseAxis.py b/nimble/core/data/sparseAxis.py
index 6e5c062..205e706 100644
--- a/nimble/core/data/sparseAxis.py
+++ b/nimble/core/data/sparseAxis.py
@@ -391,36 +391,38 @@ class SparsePoints(SparseAxis, Points):
     def _splitByCollapsingFeatures_implementation(
             self, featuresToCollapse, collapseIndices, retainIndices,
             currNumPoints, currFtNames, numRetPoints, numRetFeatures):
-        self._base._sortInternal(self._axis)
-        data = self._base._data.data
-        row = self._base._data.row
-        col = self._base._data.col
+        # zeros are not stored so a location without a stored value is 0
+        stored = [{} for _ in range(currNumPoints)]
+        for value, ptIdx, ftIdx in zip(self._base._data.data,
+                                       self._base._data.row,
+                                       self._base._data.col):
+            stored[ptIdx][ftIdx] = value
         tmpData = []
         tmpRow = []
         tmpCol = []
-        for ptIdx in range(len(self)):
-            inRetain = [val in retainIndices for val in col]
-            inCollapse = [val in collapseIndices for val in col]
-            retainData = data[(row == ptIdx) & (inRetain)]
-            retainCol = col[(row == ptIdx) & (inRetain)]
-            collapseData = data[(row == ptIdx) & (inCollapse)]
-            sort = np.argsort(collapseIndices)
-            collapseData = collapseData[sort]
-            for idx, value in enumerate(collapseData):
-                tmpData.extend(retainData)
-                tmpRow.extend([ptIdx * len(featuresToCollapse) + idx]
-                              * len(retainData))
-                tmpCol.extend(list(range(len(retainCol))))
-                tmpData.append(currFtNames[idx])
-                tmpRow.append(ptIdx * len(featuresToCollapse) + idx)
-                tmpCol.append(numRetFeatures - 2)
-                tmpData.append(value)
-                tmpRow.append(ptIdx * len(featuresToCollapse) + idx)
-                tmpCol.append(numRetFeatures - 1)
-
-        tmpData = np.array(tmpData, dtype=np.object_)
-        self._base._data = scipy.sparse.coo_matrix(
-            (tmpData, (tmpRow, tmpCol)), shape=(numRetPoints, numRetFeatures))
+        for ptIdx, point in enumerate(stored):
+            retained = [point.get(i, 0) for i in retainIndices]
+            for idx, ftIdx in enumerate(collapseIndices):
+                newPoint = retained + [currFtNames[idx], point.get(ftIdx, 0)]
+                for i, value in enumerate(newPoint):
+                    if value != 0:
+                        tmpData.append(value)
+                        tmpRow.append(ptIdx * len(collapseIndices) + idx)
+                        tmpCol.append(i)
+
+        self._setCoordinates(tmpData, tmpRow, tmpCol,
+                             (numRetPoints, numRetFeatures))
+
+    def _setCoordinates(self, data, row, col, shape):
+        """
+        Replace the internal data. An object dtype is only used when the
+        values require it because it is not supported by most of scipy.
+        """
+        array = np.array(data)
+        if len(data) and not np.issubdtype(array.dtype, np.number):
+            array = np.array(data, dtype=np.object_)
+        self._base._data = scipy.sparse.coo_matrix((array, (row, col)),
+                                                   shape=shape)
         self._base._resetSorted()
 
     def _combineByExpandingFeatures_implementation(
@@ -429,7 +431,6 @@ class SparsePoints(SparseAxis, Points):
         tmpRow = []
         tmpCol = []
         numExpanded = len(valuesIdx)
-        numNewFts = len(uniqueNames) * numExpanded
         for idx, point in enumerate(uniqueDict):
             tmpPoint = list(point[:namesIdx])
             for name in uniqueNames:
@@ -438,15 +439,14 @@ class SparsePoints(SparseAxis, Points):
                 else:
                     tmpPoint.extend([np.nan] * numExpanded)
             tmpPoint.extend(point[namesIdx:])
-            tmpData.extend(tmpPoint)
-            tmpRow.extend([idx for _ in range(len(point) + numNewFts)])
-            tmpCol.extend(list(range(numRetFeatures)))
-
-        tmpData = np.array(tmpData, dtype=np.object_)
-        shape = (len(uniqueDict), numRetFeatures)
-        self._base._data = scipy.sparse.coo_matrix((tmpData, (tmpRow, tmpCol)),
-                                                   shape=shape)
-        self._base._resetSorted()
+            for i, value in enumerate(tmpPoint):
+                if value != 0:
+                    tmpData.append(value)
+                    tmpRow.append(idx)
+                    tmpCol.append(i)
+
+        self._setCoordinates(tmpData, tmpRow, tmpCol,
+                             (len(uniqueDict), numRetFeatures))
 
 
 class SparsePointsView(PointsView, SparsePoints):
-- 
2.43.0


From 195ef6569c24a1a90eed29b199e5da0e10aeffd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:52 +0000
Subject: [PATCH 119/119] fix: operations made within other operations add no
 log entries

---
 nimble/core/data/axis.py     | 6 ++++--
 nimble/core/data/base.py     | 7 ++++---
 nimble/core/data/features.py | 5 +++--
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 7e68fe8..450bbff 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1180,7 +1180,8 @@ class Axis(ABC):
                 raise ImproperObjectAction(msg)
             # construct list from function
             if limitTo is not None:
-                obj = self._base._getAxis(self._offAxis).copy(limitTo)
+                obj = self._base._getAxis(self._offAxis).copy(limitTo,
+                                                              useLog=False)
                 toIter = obj._getAxis(self._axis)
             else:
                 toIter = self
@@ -1480,7 +1481,8 @@ class Axis(ABC):
             if not (objAllDefault or toInsertAllDefault) and reorder:
                 # use copy when reordering so toInsert object is not modified
                 toInsert = toInsert.copy()
-                toInsert._getAxis(self._offAxis).permute(offAxisObj.getNames())
+                toInsert._getAxis(self._offAxis).permute(
+                    offAxisObj.getNames(), useLog=False)
 
         return toInsert
 
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 84cfc86..92398e5 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -3260,7 +3260,7 @@ class Base(ABC):
                 outPath, show, figureID, title, xAxisLabel, yAxisLabel, xMin,
                 xMax, yMin, yMax, **kwargs)
         else:
-            grouped = self.groupByFeature(groupByFeature)
+            grouped = self.groupByFeature(groupByFeature, useLog=False)
             labels = list(grouped.keys())
             lastLabel = labels[-1]
             if 'color' in kwargs:
@@ -3534,8 +3534,9 @@ class Base(ABC):
         if subgroupFeature:
             subgroupFt = self.features[subgroupFeature]
             # remove name in case is same as feature
-            subgroupFt.features.setNames(None, oldIdentifiers=0)
-            toGroup.features.insert(1, subgroupFt)
+            subgroupFt.features.setNames(None, oldIdentifiers=0,
+                                         useLog=False)
+            toGroup.features.insert(1, subgroupFt, useLog=False)
         grouped = toGroup.groupByFeature(0, useLog=False)
 
         axisRange = range(1, len(grouped) + 1)
diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index ce38835..99f1982 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -2463,8 +2463,9 @@ class Features(ABC):
             if 'dataType' not in report.features.getNames():
                 featureDtype = unifyingType(self._base)
                 if featureDtype: 
-                    featureTypes = nimble.data(featureDtype, featureNames=['dataType'])
-                    report.features.append(featureTypes)
+                    featureTypes = nimble.data(
+                        featureDtype, featureNames=['dataType'], useLog=False)
+                    report.features.append(featureTypes, useLog=False)
 
         handleLogging(useLog, 'report', "feature", str(report))
 
-- 
2.43.0


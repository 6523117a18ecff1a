From 41d7e19557ef6aee44336ccbd935488363283425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 01/47] fix: keep vertical bars when reading a yw7 file

---
 src/pywriter/yw/yw7_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 1de5d10..c82b3e8 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -152,7 +152,7 @@ class Yw7File(File):
             except Exception as ex:
                 raise Error(f'{_("Can not process file")} - {str(ex)}')
 
-        xmlText = re.sub('[\x00-\x08|\x0b-\x0c|\x0e-\x1f]', '', xmlText)
+        xmlText = re.sub('[\x00-\x08\x0b-\x0c\x0e-\x1f]', '', xmlText)
         root = ET.fromstring(xmlText)
         xmlText = None
         # saving memory
-- 
2.43.0


From 5ed394a94bc7680a07acc2ee189658aae325f156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 02/47] fix: keep the yw7 file well-formed and custom fields
 unchanged whatever characters the text contains

---
 src/pywriter/yw/yw7_file.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index c82b3e8..574199a 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -321,7 +321,7 @@ class Yw7File(File):
                 if prjScn.kwVar.get(field, None):
                     if xmlSceneFields is None:
                         xmlSceneFields = ET.SubElement(xmlScene, 'Fields')
-                    fieldEntry = self._convert_from_yw(prjScn.kwVar[field])
+                    fieldEntry = prjScn.kwVar[field]
                     try:
                         xmlSceneFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -614,7 +614,7 @@ class Yw7File(File):
                     if xmlChapterFields is None:
                         xmlChapterFields = ET.Element('Fields')
                         xmlChapter.insert(i, xmlChapterFields)
-                    fieldEntry = self._convert_from_yw(prjChp.kwVar[field])
+                    fieldEntry = prjChp.kwVar[field]
                     try:
                         xmlChapterFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -673,7 +673,7 @@ class Yw7File(File):
                 if prjLoc.kwVar.get(field, None):
                     if xmlLocationFields is None:
                         xmlLocationFields = ET.SubElement(xmlLoc, 'Fields')
-                    fieldEntry = self._convert_from_yw(prjLoc.kwVar[field])
+                    fieldEntry = prjLoc.kwVar[field]
                     try:
                         xmlLocationFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -729,7 +729,7 @@ class Yw7File(File):
                 if prjItm.kwVar.get(field, None):
                     if xmlItemFields is None:
                         xmlItemFields = ET.SubElement(xmlItm, 'Fields')
-                    fieldEntry = self._convert_from_yw(prjItm.kwVar[field])
+                    fieldEntry = prjItm.kwVar[field]
                     try:
                         xmlItemFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -781,7 +781,7 @@ class Yw7File(File):
                 if prjCrt.kwVar.get(field, None):
                     if xmlCharacterFields is None:
                         xmlCharacterFields = ET.SubElement(xmlCrt, 'Fields')
-                    fieldEntry = self._convert_from_yw(prjCrt.kwVar[field])
+                    fieldEntry = prjCrt.kwVar[field]
                     try:
                         xmlCharacterFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -876,7 +876,7 @@ class Yw7File(File):
                 if setting:
                     if xmlProjectFields is None:
                         xmlProjectFields = ET.SubElement(xmlProject, 'Fields')
-                    fieldEntry = self._convert_from_yw(setting)
+                    fieldEntry = setting
                     try:
                         xmlProjectFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -1146,7 +1146,8 @@ class Yw7File(File):
         if not self.novel.chapters:
             text = text.replace('<CHAPTERS />', '<CHAPTERS></CHAPTERS>')
             # otherwise, yWriter fails to parse the file if there are no chapters.
-        text = unescape(text)
+        # The text within CDATA is not to be escaped.
+        text = re.sub(r'<!\[CDATA\[.*?\]\]>', lambda cdata: unescape(cdata.group()), text, flags=re.DOTALL)
         try:
             with open(filePath, 'w', encoding='utf-8') as f:
                 f.write(text)
-- 
2.43.0


From 4cc262b286cc939cc7308b4f91d5e7534dcc300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 03/47] fix: do not drop line breaks before double brackets
 within the text

---
 src/pywriter/yw/yw7_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 574199a..5baa5e3 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1141,8 +1141,8 @@ class Yw7File(File):
                 line = re.sub(fr'\<\/{tag}\>', f']]></{tag}>', line)
             newlines.append(line)
         text = '\n'.join(newlines)
-        text = text.replace('[CDATA[ \n', '[CDATA[')
-        text = text.replace('\n]]', ']]')
+        text = text.replace('<![CDATA[ \n', '<![CDATA[')
+        text = text.replace('\n]]>', ']]>')
         if not self.novel.chapters:
             text = text.replace('<CHAPTERS />', '<CHAPTERS></CHAPTERS>')
             # otherwise, yWriter fails to parse the file if there are no chapters.
-- 
2.43.0


From a32bab4702e5b89bad9700b2f6f8d02dd1cb0078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 04/47] fix: write the scene items the way they are read

---
 src/pywriter/yw/yw7_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 5baa5e3..0301931 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -529,7 +529,7 @@ class Yw7File(File):
             if prjScn.items:
                 xmlItems = ET.SubElement(xmlScene, 'Items')
                 for ItId in prjScn.items:
-                    ET.SubElement(xmlItems, 'ItmID').text = ItId
+                    ET.SubElement(xmlItems, 'ItemID').text = ItId
 
         def build_chapter_subtree(xmlChapter, prjChp):
             # This is how yWriter 7.1.3.0 writes the chapter type:
-- 
2.43.0


From 14486d25e7f9f19923df33761ce3c71c34636a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 05/47] fix: do not lose project notes that have custom fields

---
 src/pywriter/yw/yw7_file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 0301931..77677d0 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1361,9 +1361,10 @@ class Yw7File(File):
 
                 #--- Read project note custom fields.
                 for pnFields in xmlProjectnote.findall('Fields'):
-                    field = pnFields.find(fieldName)
-                    if field is not None:
-                        self.novel.projectNotes[pnId].kwVar[fieldName] = field.text
+                    for fieldName in self.PNT_KWVAR:
+                        field = pnFields.find(fieldName)
+                        if field is not None:
+                            self.novel.projectNotes[pnId].kwVar[fieldName] = field.text
         except:
             pass
 
-- 
2.43.0


From f6c56e0eec53b6b9d07e401e37572fc8b8fb31d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 06/47] fix: keep the yw7 file well-formed if a text contains
 the CDATA end marker

---
 src/pywriter/yw/yw7_file.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 77677d0..77d3899 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1147,7 +1147,11 @@ class Yw7File(File):
             text = text.replace('<CHAPTERS />', '<CHAPTERS></CHAPTERS>')
             # otherwise, yWriter fails to parse the file if there are no chapters.
         # The text within CDATA is not to be escaped.
-        text = re.sub(r'<!\[CDATA\[.*?\]\]>', lambda cdata: unescape(cdata.group()), text, flags=re.DOTALL)
+        # An end marker within the text has to be split.
+        text = re.sub(r'(<!\[CDATA\[.*?)\]\]>',
+                      lambda cdata: f"{unescape(cdata.group(1)).replace(']]>', ']]]]><![CDATA[>')}]]>",
+                      text,
+                      flags=re.DOTALL)
         try:
             with open(filePath, 'w', encoding='utf-8') as f:
                 f.write(text)
-- 
2.43.0


From f5ffbeffad554a49c5b369313cfa95d1634746dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 07/47] fix: restore the project file if postprocessing fails

---
 src/pywriter/yw/yw7_file.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 77d3899..4a600c2 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -201,8 +201,13 @@ class Yw7File(File):
                     self.novel.scenes[scId].kwVar['Field_SceneMode'] = str(self.novel.scenes[scId].scnMode)
             self.novel.scenes[scId].kwVar['Field_SceneStyle'] = None
         self._build_element_tree()
-        self._write_element_tree(self)
-        self._postprocess_xml_file(self.filePath)
+        backedUp = self._write_element_tree(self)
+        try:
+            self._postprocess_xml_file(self.filePath)
+        except:
+            if backedUp:
+                os.replace(f'{self.filePath}.bak', self.filePath)
+            raise
 
     def _build_element_tree(self):
         """Modify the yWriter project attributes of an existing xml element tree."""
@@ -1690,6 +1695,7 @@ class Yw7File(File):
     def _write_element_tree(self, ywProject):
         """Write back the xml element tree to a .yw7 xml file located at filePath.
         
+        Return True, if an existing file has been backed up.
         Raise the "Error" exception in case of error. 
         """
         backedUp = False
@@ -1706,4 +1712,5 @@ class Yw7File(File):
             if backedUp:
                 os.replace(f'{ywProject.filePath}.bak', ywProject.filePath)
             raise Error(f'{_("Cannot write file")}: "{norm_path(ywProject.filePath)}".')
+        return backedUp
 
-- 
2.43.0


From 96a6a667acd66ab5d95bea33bea1e302f650ce86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 08/47] fix: do not lose text if a scene divider follows a
 chapter or part divider

---
 src/pywriter/model/splitter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/model/splitter.py b/src/pywriter/model/splitter.py
index 755c319..80d21bd 100644
--- a/src/pywriter/model/splitter.py
+++ b/src/pywriter/model/splitter.py
@@ -137,8 +137,9 @@ class Splitter:
                         desc = ''
                     if line.startswith(self.SCENE_SEPARATOR):
                         # Split the scene.
-                        file.novel.scenes[sceneId].sceneContent = '\n'.join(newLines)
-                        newLines = []
+                        if inScene:
+                            file.novel.scenes[sceneId].sceneContent = '\n'.join(newLines)
+                            newLines = []
                         sceneSplitCount += 1
                         sceneId = create_id(file.novel.scenes)
                         create_scene(sceneId, file.novel.scenes[scId], sceneSplitCount, title, desc)
-- 
2.43.0


From 2f6e4529d1ea54c37b50d1ce838a50470b3031a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 09/47] fix: report a changed structure if a part divider is
 found

---
 src/pywriter/model/splitter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pywriter/model/splitter.py b/src/pywriter/model/splitter.py
index 80d21bd..3ef86e6 100644
--- a/src/pywriter/model/splitter.py
+++ b/src/pywriter/model/splitter.py
@@ -175,6 +175,7 @@ class Splitter:
                             title = _('New Part')
                         create_chapter(chapterId, title, desc, 1)
                         srtChapters.append(chapterId)
+                        scenesSplit = True
                     elif not inScene:
                         # Append a scene without heading to a new chapter or part.
                         newLines.append(line)
-- 
2.43.0


From edbe9df4f9fb84f1e7eeb865540839183b328ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 10/47] fix: allow splitting scenes without status

---
 src/pywriter/model/splitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/model/splitter.py b/src/pywriter/model/splitter.py
index 3ef86e6..b08b04e 100644
--- a/src/pywriter/model/splitter.py
+++ b/src/pywriter/model/splitter.py
@@ -97,7 +97,7 @@ class Splitter:
                 parent.outcome = f'{WARNING}{parent.outcome}'
 
             # Reset the parent's status to Draft, if not Outline.
-            if parent.status > 2:
+            if parent.status is not None and parent.status > 2:
                 parent.status = 2
             newScene.status = parent.status
             newScene.scType = parent.scType
-- 
2.43.0


From 041723872d8920057cdcfacc5a7c77e73cd91794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 11/47] fix: remove only the last suffix from the document name
 when looking for the project

---
 src/pywriter/converter/import_target_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/converter/import_target_factory.py b/src/pywriter/converter/import_target_factory.py
index 55e7c35..7c6a389 100644
--- a/src/pywriter/converter/import_target_factory.py
+++ b/src/pywriter/converter/import_target_factory.py
@@ -40,7 +40,7 @@ class ImportTargetFactory(FileFactory):
             e = fileName.split(sourceSuffix)
             if len(e) > 1:
                 e.pop()
-            ywPathBasis = ''.join(e)
+            ywPathBasis = sourceSuffix.join(e)
         else:
             ywPathBasis = fileName
 
-- 
2.43.0


From 4faeb8c4ec65be675dbe867f9259168da63a8ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 12/47] fix: reset the custom variables of the project notes

---
 src/pywriter/yw/yw7_purge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/yw/yw7_purge.py b/src/pywriter/yw/yw7_purge.py
index 68119f5..c983e21 100644
--- a/src/pywriter/yw/yw7_purge.py
+++ b/src/pywriter/yw/yw7_purge.py
@@ -52,8 +52,8 @@ def reset_custom_variables(prjFile):
                 hasChanged = True
     for pnId in prjFile.novel.projectNotes:
         for field in prjFile.PNT_KWVAR:
-            if prjFile.novel.projectnotes[pnId].kwVar.get(field, None):
-                prjFile.novel.projectnotes[pnId].kwVar[field] = ''
+            if prjFile.novel.projectNotes[pnId].kwVar.get(field, None):
+                prjFile.novel.projectNotes[pnId].kwVar[field] = ''
                 hasChanged = True
     return hasChanged
 
-- 
2.43.0


From 218601095c9c18a0aeee22ae351d0acf4cab80f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:55 +0000
Subject: [PATCH 13/47] fix: allow percent signs in configuration settings

---
 src/pywriter/config/configuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/config/configuration.py b/src/pywriter/config/configuration.py
index 9d62a3b..9f2b668 100644
--- a/src/pywriter/config/configuration.py
+++ b/src/pywriter/config/configuration.py
@@ -45,7 +45,7 @@ class Configuration:
             
         Settings and options that can not be read in, remain unchanged.
         """
-        config = ConfigParser()
+        config = ConfigParser(interpolation=None)
         config.read(iniFile, encoding='utf-8')
         if config.has_section(self._sLabel):
             section = config[self._sLabel]
@@ -76,7 +76,7 @@ class Configuration:
         Positional arguments:
             iniFile: str -- path configuration file path.
         """
-        config = ConfigParser()
+        config = ConfigParser(interpolation=None)
         if self.settings:
             config.add_section(self._sLabel)
             for settingId in self.settings:
-- 
2.43.0


From 1cee328afa93b8a44a4565fd46df428afc3295b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 14/47] fix: report unsupported source files if the converter
 cannot create projects

---
 src/pywriter/converter/yw_cnv_ff.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pywriter/converter/yw_cnv_ff.py b/src/pywriter/converter/yw_cnv_ff.py
index 13b0418..b69b880 100644
--- a/src/pywriter/converter/yw_cnv_ff.py
+++ b/src/pywriter/converter/yw_cnv_ff.py
@@ -75,6 +75,10 @@ class YwCnvFf(YwCnvUi):
                 source, __ = self.importSourceFactory.make_file_objects(sourcePath, **kwargs)
             except Error:
                 # A new yWriter project might be required.
+                if self.newProjectFactory is None:
+                    self.ui.set_info_how(f'!{_("File type is not supported")}: "{norm_path(sourcePath)}".')
+                    return
+
                 try:
                     source, target = self.newProjectFactory.make_file_objects(sourcePath, **kwargs)
                 except Error as ex:
-- 
2.43.0


From 451083ba2d70c618a64fbb871f41e6ff5cb5b1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 15/47] fix: escape document metadata in exported ODF files

---
 src/pywriter/odf/odf_file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index 85d1186..7657d37 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -12,6 +12,7 @@ import tempfile
 from shutil import rmtree
 from datetime import datetime
 from string import Template
+from xml.sax.saxutils import escape
 from pywriter.pywriter_globals import *
 from pywriter.file.file_export import FileExport
 
@@ -147,9 +148,9 @@ class OdfFile(FileExport):
 
         #--- Generate meta.xml with actual document metadata.
         metaMapping = dict(
-            Author=self.novel.authorName,
-            Title=self.novel.title,
-            Summary=f'<![CDATA[{self.novel.desc}]]>',
+            Author=escape(self.novel.authorName or ''),
+            Title=escape(self.novel.title or ''),
+            Summary=escape(self.novel.desc or ''),
             Datetime=datetime.today().replace(microsecond=0).isoformat(),
         )
         template = Template(self._META_XML)
-- 
2.43.0


From 9e2c1b46803d51a5839d7c37d089fe1db5af120c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 16/47] fix: escape names, images, and ratings in exported
 documents

---
 src/pywriter/file/file_export.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/pywriter/file/file_export.py b/src/pywriter/file/file_export.py
index 9e5aded..0f53120 100644
--- a/src/pywriter/file/file_export.py
+++ b/src/pywriter/file/file_export.py
@@ -270,7 +270,7 @@ class FileExport(File):
             Title=self._convert_from_yw(self.novel.characters[crId].title, True),
             Desc=self._convert_from_yw(self.novel.characters[crId].desc),
             Tags=self._convert_from_yw(tags),
-            Image=self.novel.characters[crId].image,
+            Image=self._convert_from_yw(self.novel.characters[crId].image, True),
             AKA=self._convert_from_yw(self.novel.characters[crId].aka, True),
             Notes=self._convert_from_yw(self.novel.characters[crId].notes),
             Bio=self._convert_from_yw(self.novel.characters[crId].bio),
@@ -333,7 +333,7 @@ class FileExport(File):
             Title=self._convert_from_yw(self.novel.items[itId].title, True),
             Desc=self._convert_from_yw(self.novel.items[itId].desc),
             Tags=self._convert_from_yw(tags, True),
-            Image=self.novel.items[itId].image,
+            Image=self._convert_from_yw(self.novel.items[itId].image, True),
             AKA=self._convert_from_yw(self.novel.items[itId].aka, True),
             ProjectName=self._convert_from_yw(self.projectName, True),
             ProjectPath=self.projectPath,
@@ -377,7 +377,7 @@ class FileExport(File):
             Title=self._convert_from_yw(self.novel.locations[lcId].title, True),
             Desc=self._convert_from_yw(self.novel.locations[lcId].desc),
             Tags=self._convert_from_yw(tags, True),
-            Image=self.novel.locations[lcId].image,
+            Image=self._convert_from_yw(self.novel.locations[lcId].image, True),
             AKA=self._convert_from_yw(self.novel.locations[lcId].aka, True),
             ProjectName=self._convert_from_yw(self.projectName, True),
             ProjectPath=self.projectPath,
@@ -517,10 +517,10 @@ class FileExport(File):
             FieldTitle2=self._convert_from_yw(self.novel.fieldTitle2, True),
             FieldTitle3=self._convert_from_yw(self.novel.fieldTitle3, True),
             FieldTitle4=self._convert_from_yw(self.novel.fieldTitle4, True),
-            Field1=self.novel.scenes[scId].field1,
-            Field2=self.novel.scenes[scId].field2,
-            Field3=self.novel.scenes[scId].field3,
-            Field4=self.novel.scenes[scId].field4,
+            Field1=self._convert_from_yw(self.novel.scenes[scId].field1, True),
+            Field2=self._convert_from_yw(self.novel.scenes[scId].field2, True),
+            Field3=self._convert_from_yw(self.novel.scenes[scId].field3, True),
+            Field4=self._convert_from_yw(self.novel.scenes[scId].field4, True),
             Date=scDate,
             Time=scTime,
             Day=scDay,
@@ -534,11 +534,11 @@ class FileExport(File):
             Conflict=self._convert_from_yw(self.novel.scenes[scId].conflict),
             Outcome=self._convert_from_yw(self.novel.scenes[scId].outcome),
             Tags=self._convert_from_yw(tags, True),
-            Image=self.novel.scenes[scId].image,
-            Characters=sceneChars,
-            Viewpoint=viewpointChar,
-            Locations=sceneLocs,
-            Items=sceneItems,
+            Image=self._convert_from_yw(self.novel.scenes[scId].image, True),
+            Characters=self._convert_from_yw(sceneChars, True),
+            Viewpoint=self._convert_from_yw(viewpointChar, True),
+            Locations=self._convert_from_yw(sceneLocs, True),
+            Items=self._convert_from_yw(sceneItems, True),
             Notes=self._convert_from_yw(self.novel.scenes[scId].notes),
             ProjectName=self._convert_from_yw(self.projectName, True),
             ProjectPath=self.projectPath,
-- 
2.43.0


From 4f7cf783b78d755374c048ed22c38d1911883d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 17/47] fix: escape tags in the cross reference document

---
 src/pywriter/odt_w/odt_w_xref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/odt_w/odt_w_xref.py b/src/pywriter/odt_w/odt_w_xref.py
index 5a7bf14..b73c613 100644
--- a/src/pywriter/odt_w/odt_w_xref.py
+++ b/src/pywriter/odt_w/odt_w_xref.py
@@ -213,7 +213,7 @@ $SceneNumber (Ch $Chapter) $Title (ToDo)
             tag: str -- a single scene tag.
         """
         tagMapping = dict(
-            Tag=tag,
+            Tag=self._convert_from_yw(tag, True),
         )
         return tagMapping
 
-- 
2.43.0


From d4ce3ca04493d321086cd52c49bfe53f718e9e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 18/47] fix: escape full and alternate names in the character
 descriptions

---
 src/pywriter/odt_w/odt_w_characters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_characters.py b/src/pywriter/odt_w/odt_w_characters.py
index 82209c0..d609448 100644
--- a/src/pywriter/odt_w/odt_w_characters.py
+++ b/src/pywriter/odt_w/odt_w_characters.py
@@ -54,7 +54,7 @@ class OdtWCharacters(OdtWriter):
         """
         characterMapping = OdtWriter._get_characterMapping(self, crId)
         if self.novel.characters[crId].aka:
-            characterMapping['AKA'] = f' ("{self.novel.characters[crId].aka}")'
+            characterMapping['AKA'] = f' ("{characterMapping["AKA"]}")'
         if self.novel.characters[crId].fullName:
-            characterMapping['FullName'] = f'/{self.novel.characters[crId].fullName}'
+            characterMapping['FullName'] = f'/{characterMapping["FullName"]}'
         return characterMapping
-- 
2.43.0


From 9e4fc7bc1d40ce24f69f5e03a95afc7ac9cbd5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 19/47] fix: escape alternate names in the item and location
 descriptions

---
 src/pywriter/odt_w/odt_w_items.py     | 2 +-
 src/pywriter/odt_w/odt_w_locations.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_items.py b/src/pywriter/odt_w/odt_w_items.py
index a05d86b..d6c5b29 100644
--- a/src/pywriter/odt_w/odt_w_items.py
+++ b/src/pywriter/odt_w/odt_w_items.py
@@ -39,5 +39,5 @@ class OdtWItems(OdtWriter):
         """
         itemMapping = super()._get_itemMapping(itId)
         if self.novel.items[itId].aka:
-            itemMapping['AKA'] = f' ("{self.novel.items[itId].aka}")'
+            itemMapping['AKA'] = f' ("{itemMapping["AKA"]}")'
         return itemMapping
diff --git a/src/pywriter/odt_w/odt_w_locations.py b/src/pywriter/odt_w/odt_w_locations.py
index 33c8b19..a0f9da5 100644
--- a/src/pywriter/odt_w/odt_w_locations.py
+++ b/src/pywriter/odt_w/odt_w_locations.py
@@ -39,5 +39,5 @@ class OdtWLocations(OdtWriter):
         """
         locationMapping = super()._get_locationMapping(lcId)
         if self.novel.locations[lcId].aka:
-            locationMapping['AKA'] = f' ("{self.novel.locations[lcId].aka}")'
+            locationMapping['AKA'] = f' ("{locationMapping["AKA"]}")'
         return locationMapping
-- 
2.43.0


From 87c00168d8b0d006644351fd78cf839fd6d302b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 20/47] fix: escape the author name in comments of exported
 documents

---
 src/pywriter/odt_w/odt_w_export.py    | 14 +++++++-------
 src/pywriter/odt_w/odt_w_formatted.py |  2 +-
 src/pywriter/odt_w/odt_w_proof.py     |  3 ++-
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_export.py b/src/pywriter/odt_w/odt_w_export.py
index 80efacd..0ca7242 100644
--- a/src/pywriter/odt_w/odt_w_export.py
+++ b/src/pywriter/odt_w/odt_w_export.py
@@ -100,19 +100,19 @@ class OdtWExport(OdtWFormatted):
                     f'text:label="{noteLabel}">*</text:note-citation><text:note-body>'
                     f'<text:p text:style-name="{noteStyle}">{text}</text:p></text:note-body></text:note>')
 
+        def replace_comment(match):
+            return (f'<office:annotation><dc:creator>{author}</dc:creator>'
+                    f'<text:p>{match.group(1)}</text:p></office:annotation>')
+
         text = super()._get_text()
 
         #--- Convert comments, footnotes, and endnotes.
         # This is done once for the entire document because of the document-wide note numbering.
         if text.find('/*') > 0:
-            text = text.replace('\r', '@r@').replace('\n', '@n@')
             self._noteCounter = 0
             self._noteNumber = 0
-            simpleComment = (f'<office:annotation><dc:creator>{self.novel.authorName}'
-                             '</dc:creator><text:p>\\1</text:p></office:annotation>'
-                             )
-            text = re.sub(r'\/\* *@([ef]n\**) (.*?)\*\/', replace_note, text)
-            text = re.sub(r'\/\*(.*?)\*\/', simpleComment, text)
-            text = text.replace(r'@r@', '\r').replace('@n@', '\n')
+            author = self._convert_from_yw(self.novel.authorName, True)
+            text = re.sub(r'\/\* *@([ef]n\**) (.*?)\*\/', replace_note, text, flags=re.DOTALL)
+            text = re.sub(r'\/\*(.*?)\*\/', replace_comment, text, flags=re.DOTALL)
         return text
 
diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index eed9e54..ec387c9 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -148,7 +148,7 @@ class OdtWFormatted(OdtWriter):
                 ('[/i]', '</text:span>'),
                 ('[b]', '<text:span text:style-name="Strong_20_Emphasis">'),
                 ('[/b]', '</text:span>'),
-                ('/*', f'<office:annotation><dc:creator>{self.novel.authorName}</dc:creator><text:p>'),
+                ('/*', f'<office:annotation><dc:creator>{self._convert_from_yw(self.novel.authorName, True)}</dc:creator><text:p>'),
                 ('*/', '</text:p></office:annotation>'),
                 ]
 
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 9e95351..f633388 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -6,6 +6,7 @@ Published under the MIT License (https://opensource.org/licenses/mit-license.php
 """
 import re
 from string import Template
+from xml.sax.saxutils import escape
 from pywriter.pywriter_globals import *
 from pywriter.odt_w.odt_w_formatted import OdtWFormatted
 
@@ -64,7 +65,7 @@ class OdtWProof(OdtWFormatted):
                 ('\r', '\n'),
                 ('[/i]', '</text:span>'),
                 ('[/b]', '</text:span>'),
-                ('/*', f'<office:annotation><dc:creator>{self.novel.authorName}</dc:creator><text:p>'),
+                ('/*', f'<office:annotation><dc:creator>{escape(self.novel.authorName or "")}</dc:creator><text:p>'),
                 ('*/', '</text:p></office:annotation>'),
             ])
             i = 0
-- 
2.43.0


From 026205585448cbe5f81cc2a26604bdb77e51b6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 21/47] fix: do not remove vertical bars in brackets from
 exported text

---
 src/pywriter/odt_w/odt_w_formatted.py | 2 +-
 src/pywriter/odt_w/odt_w_proof.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index ec387c9..2776f5e 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -103,7 +103,7 @@ class OdtWFormatted(OdtWriter):
 
             # Remove highlighting, alignment,
             # strikethrough, and underline tags.
-            text = re.sub(r'\[\/*[h|c|r|s|u]\d*\]', '', text)
+            text = re.sub(r'\[\/*[hcrsu]\d*\]', '', text)
         else:
             text = ''
         return text
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index f633388..6eda6f1 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -111,7 +111,7 @@ class OdtWProof(OdtWFormatted):
 
             # Remove highlighting, alignment,
             # strikethrough, and underline tags.
-            text = re.sub(r'\[\/*[h|c|r|s|u]\d*\]', '', text)
+            text = re.sub(r'\[\/*[hcrsu]\d*\]', '', text)
         else:
             text = ''
         return text
-- 
2.43.0


From 4494ce1d0ead27cd1ce2e8dd1bf86777e8ec1f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 22/47] fix: keep quotations formatted if markup reaches across
 the line break before

---
 src/pywriter/odt_w/odt_w_formatted.py | 4 ++--
 src/pywriter/odt_w/odt_w_proof.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 2776f5e..87df823 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -83,8 +83,8 @@ class OdtWFormatted(OdtWriter):
                 for line in lines:
                     for tag in tags:
                         if isOpen[tag]:
-                            if line.startswith('&gt; '):
-                                line = f"&gt; {opening[tag]}{line.lstrip('&gt; ')}"
+                            if line.startswith('> '):
+                                line = f'> {opening[tag]}{line[2:]}'
                             else:
                                 line = f'{opening[tag]}{line}'
                             isOpen[tag] = False
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 6eda6f1..affda88 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -91,8 +91,8 @@ class OdtWProof(OdtWFormatted):
             for line in lines:
                 for tag in tags:
                     if isOpen[tag]:
-                        if line.startswith('&gt; '):
-                            line = f"&gt; {opening[tag]}{line.lstrip('&gt; ')}"
+                        if line.startswith('> '):
+                            line = f'> {opening[tag]}{line[2:]}'
                         else:
                             line = f'{opening[tag]}{line}'
                         isOpen[tag] = False
-- 
2.43.0


From 87bf817f471748f9162b3c5ed1f0f335eebca8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 23/47] fix: keep blanks next to special characters and
 formatted text when importing documents

---
 src/pywriter/odt_r/odt_r_chapterdesc.py | 4 ++--
 src/pywriter/odt_r/odt_r_characters.py  | 2 +-
 src/pywriter/odt_r/odt_r_items.py       | 2 +-
 src/pywriter/odt_r/odt_r_locations.py   | 2 +-
 src/pywriter/odt_r/odt_r_manuscript.py  | 3 +--
 5 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_chapterdesc.py b/src/pywriter/odt_r/odt_r_chapterdesc.py
index c9e5133..d565276 100644
--- a/src/pywriter/odt_r/odt_r_chapterdesc.py
+++ b/src/pywriter/odt_r/odt_r_chapterdesc.py
@@ -37,7 +37,7 @@ class OdtRChapterDesc(OdtReader):
                 self._lines.append('\n')
             elif tag == 'h1' or tag == 'h2':
                 if not self.novel.chapters[self._chId].title:
-                    self.novel.chapters[self._chId].title = ''.join(self._lines)
+                    self.novel.chapters[self._chId].title = ''.join(self._lines).strip()
                 self._lines = []
 
     def handle_data(self, data):
@@ -49,4 +49,4 @@ class OdtRChapterDesc(OdtReader):
         Overrides the superclass method.
         """
         if self._chId is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
diff --git a/src/pywriter/odt_r/odt_r_characters.py b/src/pywriter/odt_r/odt_r_characters.py
index 93106cd..6e5972f 100644
--- a/src/pywriter/odt_r/odt_r_characters.py
+++ b/src/pywriter/odt_r/odt_r_characters.py
@@ -46,7 +46,7 @@ class OdtRCharacters(OdtReader):
         Overrides the superclass method.
         """
         if self._section is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
 
     def handle_endtag(self, tag):
         """Recognize the end of the character section and save data.
diff --git a/src/pywriter/odt_r/odt_r_items.py b/src/pywriter/odt_r/odt_r_items.py
index d927bef..b3633ea 100644
--- a/src/pywriter/odt_r/odt_r_items.py
+++ b/src/pywriter/odt_r/odt_r_items.py
@@ -45,7 +45,7 @@ class OdtRItems(OdtReader):
         Overrides the superclass method.
         """
         if self._itId is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
 
     def handle_endtag(self, tag):
         """Recognize the end of the item section and save data.
diff --git a/src/pywriter/odt_r/odt_r_locations.py b/src/pywriter/odt_r/odt_r_locations.py
index e365407..6ac6cc2 100644
--- a/src/pywriter/odt_r/odt_r_locations.py
+++ b/src/pywriter/odt_r/odt_r_locations.py
@@ -45,7 +45,7 @@ class OdtRLocations(OdtReader):
         Overrides the superclass method.
         """
         if self._lcId is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
 
     def handle_endtag(self, tag):
         """Recognize the end of the location section and save data.
diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index 6fb8089..921ecf2 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -57,8 +57,7 @@ class OdtRManuscript(OdtRFormatted):
         if self._skip_data:
             self._skip_data = False
         elif self._scId is not None:
-            if not data.isspace():
-                self._lines.append(data)
+            self._lines.append(data)
         elif self._chId is not None:
             if self.novel.chapters[self._chId].title is None:
                 self.novel.chapters[self._chId].title = data.strip()
-- 
2.43.0


From 7656aaa1ebf40ae48530518dfdc2b31e03478e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 24/47] fix: complete the project variables of each language if
 one of the pair is missing

---
 src/pywriter/yw/yw7_file.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 4a600c2..d8a1db6 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -993,20 +993,17 @@ class Yw7File(File):
                 xmlProjectvars = ET.SubElement(root, 'PROJECTVARS')
             prjVars = []
             # list of all project variable IDs
-            languages = self.novel.languages.copy()
+            languageTags = []
+            # list of all language related project variable titles
             hasLanguageCode = False
             hasCountryCode = False
             for xmlProjectvar in xmlProjectvars.findall('PROJECTVAR'):
                 prjVars.append(xmlProjectvar.find('ID').text)
                 title = xmlProjectvar.find('Title').text
 
-                # Collect language codes.
-                if title.startswith('lang='):
-                    try:
-                        __, langCode = title.split('=')
-                        languages.remove(langCode)
-                    except:
-                        pass
+                # Collect language code tags.
+                if title.startswith(('lang=', '/lang=')):
+                    languageTags.append(title)
 
                 # Get the document's locale.
                 elif title == 'Language':
@@ -1029,13 +1026,17 @@ class Yw7File(File):
                                     '0')
 
             # Define project variables for the missing language code tags.
-            for langCode in languages:
-                add_projectvariable(f'lang={langCode}',
-                                    f'<HTM <SPAN LANG="{langCode}"> /HTM>',
-                                    '0')
-                add_projectvariable(f'/lang={langCode}',
-                                    f'<HTM </SPAN> /HTM>',
-                                    '0')
+            for langCode in self.novel.languages:
+                if not f'lang={langCode}' in languageTags:
+                    add_projectvariable(f'lang={langCode}',
+                                        f'<HTM <SPAN LANG="{langCode}"> /HTM>',
+                                        '0')
+                    languageTags.append(f'lang={langCode}')
+                if not f'/lang={langCode}' in languageTags:
+                    add_projectvariable(f'/lang={langCode}',
+                                        f'<HTM </SPAN> /HTM>',
+                                        '0')
+                    languageTags.append(f'/lang={langCode}')
                 # adding new IDs to the prjVars list
 
         #--- Process scenes.
-- 
2.43.0


From 422cd94603fabeb076e3f0641c663484fd7eb30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 25/47] fix: do not stumble over project variables without
 title

---
 src/pywriter/yw/yw7_file.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index d8a1db6..03fecf2 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -999,7 +999,9 @@ class Yw7File(File):
             hasCountryCode = False
             for xmlProjectvar in xmlProjectvars.findall('PROJECTVAR'):
                 prjVars.append(xmlProjectvar.find('ID').text)
-                title = xmlProjectvar.find('Title').text
+                title = xmlProjectvar.findtext('Title')
+                if not title:
+                    continue
 
                 # Collect language code tags.
                 if title.startswith(('lang=', '/lang=')):
@@ -1382,8 +1384,8 @@ class Yw7File(File):
         """Read relevant project variables from the xml element tree."""
         try:
             for xmlProjectvar in root.find('PROJECTVARS'):
-                if xmlProjectvar.find('Title') is not None:
-                    title = xmlProjectvar.find('Title').text
+                title = xmlProjectvar.findtext('Title')
+                if title:
                     if title == 'Language':
                         if xmlProjectvar.find('Desc') is not None:
                             self.novel.languageCode = xmlProjectvar.find('Desc').text
-- 
2.43.0


From c767fed7415d1bc145a70bdfa262a455274ccaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 26/47] fix: ignore excess cells if the last cells of a row are
 repeated

---
 src/pywriter/ods_r/ods_parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/ods_r/ods_parser.py b/src/pywriter/ods_r/ods_parser.py
index 61786a7..4314250 100644
--- a/src/pywriter/ods_r/ods_parser.py
+++ b/src/pywriter/ods_r/ods_parser.py
@@ -57,6 +57,10 @@ class OdsParser:
             cells = []
             i = 0
             for cell in row.findall('table:table-cell', namespaces):
+                if i >= cellsPerRow:
+                    # The cell is excess, created by Calc.
+                    break
+
                 content = ''
                 if cell.find('text:p', namespaces) is not None:
                     paragraphs = []
@@ -72,9 +76,6 @@ class OdsParser:
                     break
 
                 i += 1
-                if i >= cellsPerRow:
-                    # The cell is excess, created by Calc.
-                    break
 
                 # Add repeated cells.
                 attribute = cell.get(f'{{{namespaces["table"]}}}number-columns-repeated')
-- 
2.43.0


From 7123612daf8dc23af7becfad9ab5ad3345196226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 27/47] fix: keep nested markup that reaches across line breaks
 when exporting formatted text

---
 src/pywriter/odt_w/odt_w_formatted.py | 23 +++++++++++++----------
 src/pywriter/odt_w/odt_w_proof.py     | 23 +++++++++++++----------
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 87df823..9ade1b6 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -73,24 +73,27 @@ class OdtWFormatted(OdtWriter):
                 #--- Process markup reaching across linebreaks.
                 newlines = []
                 lines = text.split('\n')
-                isOpen = {}
+                openTags = []
                 opening = {}
                 closing = {}
                 for tag in tags:
-                    isOpen[tag] = False
                     opening[tag] = f'[{tag}]'
                     closing[tag] = f'[/{tag}]'
                 for line in lines:
-                    for tag in tags:
-                        if isOpen[tag]:
-                            if line.startswith('> '):
-                                line = f'> {opening[tag]}{line[2:]}'
-                            else:
-                                line = f'{opening[tag]}{line}'
-                            isOpen[tag] = False
+                    # Reopen the markup in the order in which it was opened.
+                    for tag in reversed(openTags):
+                        if line.startswith('> '):
+                            line = f'> {opening[tag]}{line[2:]}'
+                        else:
+                            line = f'{opening[tag]}{line}'
+                    openTags = [tag for tag in tags if line.count(opening[tag]) > line.count(closing[tag])]
+                    openTags.sort(key=lambda tag: line.rfind(opening[tag]))
+                    # Close the innermost markup first.
+                    for tag in reversed(openTags):
                         while line.count(opening[tag]) > line.count(closing[tag]):
                             line = f'{line}{closing[tag]}'
-                            isOpen[tag] = True
+                        line = line.replace(f'{opening[tag]}{closing[tag]}', '')
+                    for tag in tags:
                         while line.count(closing[tag]) > line.count(opening[tag]):
                             line = f'{opening[tag]}{line}'
                         line = line.replace(f'{opening[tag]}{closing[tag]}', '')
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index affda88..8758d43 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -81,24 +81,27 @@ class OdtWProof(OdtWFormatted):
             #--- Process markup reaching across linebreaks.
             newlines = []
             lines = text.split('\n')
-            isOpen = {}
+            openTags = []
             opening = {}
             closing = {}
             for tag in tags:
-                isOpen[tag] = False
                 opening[tag] = f'[{tag}]'
                 closing[tag] = f'[/{tag}]'
             for line in lines:
-                for tag in tags:
-                    if isOpen[tag]:
-                        if line.startswith('> '):
-                            line = f'> {opening[tag]}{line[2:]}'
-                        else:
-                            line = f'{opening[tag]}{line}'
-                        isOpen[tag] = False
+                # Reopen the markup in the order in which it was opened.
+                for tag in reversed(openTags):
+                    if line.startswith('> '):
+                        line = f'> {opening[tag]}{line[2:]}'
+                    else:
+                        line = f'{opening[tag]}{line}'
+                openTags = [tag for tag in tags if line.count(opening[tag]) > line.count(closing[tag])]
+                openTags.sort(key=lambda tag: line.rfind(opening[tag]))
+                # Close the innermost markup first.
+                for tag in reversed(openTags):
                     while line.count(opening[tag]) > line.count(closing[tag]):
                         line = f'{line}{closing[tag]}'
-                        isOpen[tag] = True
+                    line = line.replace(f'{opening[tag]}{closing[tag]}', '')
+                for tag in tags:
                     while line.count(closing[tag]) > line.count(opening[tag]):
                         line = f'{opening[tag]}{line}'
                     line = line.replace(f'{opening[tag]}{closing[tag]}', '')
-- 
2.43.0


From 4ca68e6d04fe97c9b2a613680fbe08adf7641940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 28/47] fix: do not take over scene titles as title of an
 untitled chapter

---
 src/pywriter/odt_r/odt_r_manuscript.py | 4 +++-
 src/pywriter/odt_r/odt_r_scenedesc.py  | 4 +++-
 src/pywriter/odt_r/odt_reader.py       | 3 +++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index 921ecf2..81b4537 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -58,7 +58,7 @@ class OdtRManuscript(OdtRFormatted):
             self._skip_data = False
         elif self._scId is not None:
             self._lines.append(data)
-        elif self._chId is not None:
+        elif self._chId is not None and self._chapterHeading:
             if self.novel.chapters[self._chId].title is None:
                 self.novel.chapters[self._chId].title = data.strip()
 
@@ -70,6 +70,8 @@ class OdtRManuscript(OdtRFormatted):
 
         Overrides the superclass method.
         """
+        if tag in ('h1', 'h2'):
+            self._chapterHeading = False
         if self._scId is not None:
             if tag in ('p', 'blockquote'):
                 if self._language:
diff --git a/src/pywriter/odt_r/odt_r_scenedesc.py b/src/pywriter/odt_r/odt_r_scenedesc.py
index 888c565..146cc31 100644
--- a/src/pywriter/odt_r/odt_r_scenedesc.py
+++ b/src/pywriter/odt_r/odt_r_scenedesc.py
@@ -30,7 +30,7 @@ class OdtRSceneDesc(OdtReader):
         """
         if self._scId is not None:
             self._lines.append(data)
-        elif self._chId is not None:
+        elif self._chId is not None and self._chapterHeading:
             if not self.novel.chapters[self._chId].title:
                 self.novel.chapters[self._chId].title = data.strip()
 
@@ -42,6 +42,8 @@ class OdtRSceneDesc(OdtReader):
 
         Overrides the superclass method.
         """
+        if tag in ('h1', 'h2'):
+            self._chapterHeading = False
         if self._scId is not None:
             if tag == 'div':
                 text = ''.join(self._lines)
diff --git a/src/pywriter/odt_r/odt_reader.py b/src/pywriter/odt_r/odt_reader.py
index 154c34e..c603868 100644
--- a/src/pywriter/odt_r/odt_reader.py
+++ b/src/pywriter/odt_r/odt_reader.py
@@ -54,6 +54,7 @@ class OdtReader(File, ABC):
         self._lines = []
         self._scId = None
         self._chId = None
+        self._chapterHeading = False
         self._newline = False
         self._language = ''
         self._skip_data = False
@@ -111,6 +112,8 @@ class OdtReader(File, ABC):
                         self.novel.chapters[self._chId].srtScenes = []
                         self.novel.srtChapters.append(self._chId)
                     self.novel.chapters[self._chId].chType = self._TYPE
+        elif tag in ('h1', 'h2'):
+            self._chapterHeading = True
         elif tag == 's':
             self._lines.append(' ')
 
-- 
2.43.0


From 044f2c57787d5acab255f5686547b1812cc7e336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 29/47] fix: take over the complete heading as title of an
 untitled chapter

---
 src/pywriter/odt_r/odt_r_manuscript.py | 9 +++++----
 src/pywriter/odt_r/odt_r_scenedesc.py  | 9 +++++----
 src/pywriter/odt_r/odt_reader.py       | 4 ++--
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index 81b4537..92037fb 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -58,9 +58,8 @@ class OdtRManuscript(OdtRFormatted):
             self._skip_data = False
         elif self._scId is not None:
             self._lines.append(data)
-        elif self._chId is not None and self._chapterHeading:
-            if self.novel.chapters[self._chId].title is None:
-                self.novel.chapters[self._chId].title = data.strip()
+        elif self._chapterHeading is not None:
+            self._chapterHeading = f'{self._chapterHeading}{data}'
 
     def handle_endtag(self, tag):
         """Recognize the end of the scene section and save data.
@@ -71,7 +70,9 @@ class OdtRManuscript(OdtRFormatted):
         Overrides the superclass method.
         """
         if tag in ('h1', 'h2'):
-            self._chapterHeading = False
+            if self._chId is not None and self._chapterHeading and self.novel.chapters[self._chId].title is None:
+                self.novel.chapters[self._chId].title = self._chapterHeading.strip()
+            self._chapterHeading = None
         if self._scId is not None:
             if tag in ('p', 'blockquote'):
                 if self._language:
diff --git a/src/pywriter/odt_r/odt_r_scenedesc.py b/src/pywriter/odt_r/odt_r_scenedesc.py
index 146cc31..bad2319 100644
--- a/src/pywriter/odt_r/odt_r_scenedesc.py
+++ b/src/pywriter/odt_r/odt_r_scenedesc.py
@@ -30,9 +30,8 @@ class OdtRSceneDesc(OdtReader):
         """
         if self._scId is not None:
             self._lines.append(data)
-        elif self._chId is not None and self._chapterHeading:
-            if not self.novel.chapters[self._chId].title:
-                self.novel.chapters[self._chId].title = data.strip()
+        elif self._chapterHeading is not None:
+            self._chapterHeading = f'{self._chapterHeading}{data}'
 
     def handle_endtag(self, tag):
         """Recognize the end of the scene section and save data.
@@ -43,7 +42,9 @@ class OdtRSceneDesc(OdtReader):
         Overrides the superclass method.
         """
         if tag in ('h1', 'h2'):
-            self._chapterHeading = False
+            if self._chId is not None and self._chapterHeading and not self.novel.chapters[self._chId].title:
+                self.novel.chapters[self._chId].title = self._chapterHeading.strip()
+            self._chapterHeading = None
         if self._scId is not None:
             if tag == 'div':
                 text = ''.join(self._lines)
diff --git a/src/pywriter/odt_r/odt_reader.py b/src/pywriter/odt_r/odt_reader.py
index c603868..79e190c 100644
--- a/src/pywriter/odt_r/odt_reader.py
+++ b/src/pywriter/odt_r/odt_reader.py
@@ -54,7 +54,7 @@ class OdtReader(File, ABC):
         self._lines = []
         self._scId = None
         self._chId = None
-        self._chapterHeading = False
+        self._chapterHeading = None
         self._newline = False
         self._language = ''
         self._skip_data = False
@@ -113,7 +113,7 @@ class OdtReader(File, ABC):
                         self.novel.srtChapters.append(self._chId)
                     self.novel.chapters[self._chId].chType = self._TYPE
         elif tag in ('h1', 'h2'):
-            self._chapterHeading = True
+            self._chapterHeading = ''
         elif tag == 's':
             self._lines.append(' ')
 
-- 
2.43.0


From 76346352fce9b3906c17417cac43b4888e513d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:21 +0000
Subject: [PATCH 30/47] fix: do not add blanks from headings to the texts of a
 document

---
 src/pywriter/odt_r/odt_r_characters.py | 2 +-
 src/pywriter/odt_r/odt_r_items.py      | 2 +-
 src/pywriter/odt_r/odt_r_locations.py  | 2 +-
 src/pywriter/odt_r/odt_r_manuscript.py | 2 --
 src/pywriter/odt_r/odt_r_proof.py      | 2 +-
 src/pywriter/odt_r/odt_reader.py       | 2 +-
 6 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_characters.py b/src/pywriter/odt_r/odt_r_characters.py
index 6e5972f..b44e79e 100644
--- a/src/pywriter/odt_r/odt_r_characters.py
+++ b/src/pywriter/odt_r/odt_r_characters.py
@@ -101,5 +101,5 @@ class OdtRCharacters(OdtReader):
                 elif attrs[0][1].startswith('CrID_notes'):
                     self._section = 'notes'
         elif tag == 's':
-            self._lines.append(' ')
+            self.handle_data(' ')
 
diff --git a/src/pywriter/odt_r/odt_r_items.py b/src/pywriter/odt_r/odt_r_items.py
index b3633ea..b6cc0b0 100644
--- a/src/pywriter/odt_r/odt_r_items.py
+++ b/src/pywriter/odt_r/odt_r_items.py
@@ -80,5 +80,5 @@ class OdtRItems(OdtReader):
                         self.novel.srtItems.append(self._itId)
                         self.novel.items[self._itId] = WorldElement()
         elif tag == 's':
-            self._lines.append(' ')
+            self.handle_data(' ')
 
diff --git a/src/pywriter/odt_r/odt_r_locations.py b/src/pywriter/odt_r/odt_r_locations.py
index 6ac6cc2..d7f063d 100644
--- a/src/pywriter/odt_r/odt_r_locations.py
+++ b/src/pywriter/odt_r/odt_r_locations.py
@@ -80,5 +80,5 @@ class OdtRLocations(OdtReader):
                         self.novel.srtLocations.append(self._lcId)
                         self.novel.locations[self._lcId] = WorldElement()
         elif tag == 's':
-            self._lines.append(' ')
+            self.handle_data(' ')
 
diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index 92037fb..e5e1e2a 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -152,6 +152,4 @@ class OdtRManuscript(OdtRFormatted):
                 elif attr[0] == 'country':
                     if attr[1]:
                         self.novel.countryCode = attr[1]
-        elif tag == 's':
-            self._lines.append(' ')
 
diff --git a/src/pywriter/odt_r/odt_r_proof.py b/src/pywriter/odt_r/odt_r_proof.py
index 97b05b6..bc7df92 100644
--- a/src/pywriter/odt_r/odt_r_proof.py
+++ b/src/pywriter/odt_r/odt_r_proof.py
@@ -120,5 +120,5 @@ class OdtRProof(OdtRFormatted):
             self._skip_data = True
             # avoid inserting an unwanted blank
         elif tag == 's':
-            self._lines.append(' ')
+            self.handle_data(' ')
 
diff --git a/src/pywriter/odt_r/odt_reader.py b/src/pywriter/odt_r/odt_reader.py
index 79e190c..7b16ea0 100644
--- a/src/pywriter/odt_r/odt_reader.py
+++ b/src/pywriter/odt_r/odt_reader.py
@@ -115,7 +115,7 @@ class OdtReader(File, ABC):
         elif tag in ('h1', 'h2'):
             self._chapterHeading = ''
         elif tag == 's':
-            self._lines.append(' ')
+            self.handle_data(' ')
 
     def read(self):
         parser = OdtParser(self)
-- 
2.43.0


From b3f31a9f340bdaaefc4670a35a84311d803366d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:23 +0000
Subject: [PATCH 31/47] fix: a quotation mark after a comment within a
 paragraph was lost on ODT export

---
 src/pywriter/odt_w/odt_w_formatted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 9ade1b6..fd53067 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -174,7 +174,7 @@ class OdtWFormatted(OdtWriter):
                          )
             for quotMark in quotMarks:
                 text = text.replace(quotMark, '"Quotations">')
-            text = re.sub(r'"Text_20_body"\>(\<office\:annotation\>.+?\<\/office\:annotation\>)\&gt\; ',
+            text = re.sub(r'"Text_20_body"\>(\<office\:annotation\>(?:(?!\<\/office\:annotation\>).)+\<\/office\:annotation\>)\&gt\; ',
                           '"Quotations">\\1', text)
         return text
 
-- 
2.43.0


From 7852c9636c33c961a7c345e43553a8841e656880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:28 +0000
Subject: [PATCH 32/47] fix: accept file names that are not valid UTF-8

quote() raised UnicodeEncodeError for paths with undecodable bytes, so the
conversion ended with an exception instead of a message.
---
 src/pywriter/file/file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/file/file.py b/src/pywriter/file/file.py
index 31d763c..f48b991 100644
--- a/src/pywriter/file/file.py
+++ b/src/pywriter/file/file.py
@@ -101,8 +101,8 @@ class File(ABC):
                 # realpath() completes relative paths, but may not work on virtual file systems.
             except:
                 head, tail = os.path.split(filePath)
-            self.projectPath = quote(head.replace('\\', '/'), '/:')
-            self.projectName = quote(tail.replace(f'{suffix}{self.EXTENSION}', ''))
+            self.projectPath = quote(head.replace('\\', '/'), '/:', errors='surrogateescape')
+            self.projectName = quote(tail.replace(f'{suffix}{self.EXTENSION}', ''), errors='surrogateescape')
 
     def read(self):
         """Parse the file and get the instance variables.
-- 
2.43.0


From 19503372b0de0ff667b53180fc72773c8b2b783f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:28 +0000
Subject: [PATCH 33/47] fix: report a temporary directory that cannot be
 created

The exception of mkdtemp() passed through the converter instead of being
reported as an error message.
---
 src/pywriter/odf/odf_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index 7657d37..2293173 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -42,7 +42,10 @@ class OdfFile(FileExport):
         Extends the superclass constructor,        
         """
         super().__init__(filePath, **kwargs)
-        self._tempDir = tempfile.mkdtemp(suffix='.tmp', prefix='odf_')
+        try:
+            self._tempDir = tempfile.mkdtemp(suffix='.tmp', prefix='odf_')
+        except OSError:
+            raise Error(f'{_("Cannot create directory")}: "odf_*.tmp".')
         self._originalPath = self._filePath
 
     def __del__(self):
-- 
2.43.0


From 2760020e5652868d09a4fec798c88c2e6888bee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:28 +0000
Subject: [PATCH 34/47] fix: report an invalid target path when creating a
 project

create_yw7() raised TypeError if the target had no valid file path.
---
 src/pywriter/converter/yw_cnv_ui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/converter/yw_cnv_ui.py b/src/pywriter/converter/yw_cnv_ui.py
index fff7987..46bb427 100644
--- a/src/pywriter/converter/yw_cnv_ui.py
+++ b/src/pywriter/converter/yw_cnv_ui.py
@@ -87,7 +87,7 @@ class YwCnvUi:
         """
         self.ui.set_info_what(
             _('Create a yWriter project file from {0}\nNew project: "{1}"').format(source.DESCRIPTION, norm_path(target.filePath)))
-        if os.path.isfile(target.filePath):
+        if target.filePath is not None and os.path.isfile(target.filePath):
             self.ui.set_info_how(f'!{_("File already exists")}: "{norm_path(target.filePath)}".')
         else:
             try:
-- 
2.43.0


From ebc7210b3e21f2dc105d215fae51cbfeae45e6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:50 +0000
Subject: [PATCH 35/47] fix: check_locale() raised ValueError if the system has
 no language and country

---
 src/pywriter/model/novel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/model/novel.py b/src/pywriter/model/novel.py
index 5753468..1fde6ae 100644
--- a/src/pywriter/model/novel.py
+++ b/src/pywriter/model/novel.py
@@ -177,8 +177,12 @@ class Novel(BasicElement):
             try:
                 sysLng, sysCtr = locale.getlocale()[0].split('_')
             except:
-                # Fallback for old Windows versions.
-                sysLng, sysCtr = locale.getdefaultlocale()[0].split('_')
+                try:
+                    # Fallback for old Windows versions.
+                    sysLng, sysCtr = locale.getdefaultlocale()[0].split('_')
+                except:
+                    # The system has no language and country (e.g. "C.UTF-8").
+                    sysLng, sysCtr = 'zxx', 'none'
             self.languageCode = sysLng
             self.countryCode = sysCtr
             return
-- 
2.43.0


From 487273a047fd619c52ee0ccb4a46c7063a9a6596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:19 +0000
Subject: [PATCH 36/47] fix: a scene start with an empty day, date, or time was
 written as unreadable file or lost

---
 src/pywriter/yw/yw7_file.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 03fecf2..a247648 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -392,15 +392,10 @@ class Yw7File(File):
                 xmlScene.remove(xmlScene.find('AppendToPrev'))
 
             #--- Write scene start.
-            if (prjScn.date is not None) and (prjScn.time is not None):
-                separator = ' '
-                dateTime = f'{prjScn.date}{separator}{prjScn.time}'
-
-                # Remove scene start data from XML, if date and time are empty strings.
-                if dateTime == separator:
-                    remove_date_time()
-
-                elif xmlScene.find('SpecificDateTime') is not None:
+            if prjScn.date:
+                # A date without time of day means midnight.
+                dateTime = f'{prjScn.date} {prjScn.time or "00:00:00"}'
+                if xmlScene.find('SpecificDateTime') is not None:
                     if dateTime.count(':') < 2:
                         dateTime = f'{dateTime}:00'
                     xmlScene.find('SpecificDateTime').text = dateTime
@@ -429,13 +424,15 @@ class Yw7File(File):
 
                     if xmlScene.find('SpecificDateMode') is not None:
                         xmlScene.remove(xmlScene.find('SpecificDateMode'))
-                    if prjScn.day is not None:
+                    if prjScn.day:
                         try:
                             xmlScene.find('Day').text = prjScn.day
                         except(AttributeError):
                             ET.SubElement(xmlScene, 'Day').text = prjScn.day
-                    if prjScn.time is not None:
-                        hours, minutes, __ = prjScn.time.split(':')
+                    elif prjScn.day is not None and xmlScene.find('Day') is not None:
+                        xmlScene.remove(xmlScene.find('Day'))
+                    if prjScn.time:
+                        hours, minutes = prjScn.time.split(':')[:2]
                         try:
                             xmlScene.find('Hour').text = hours
                         except(AttributeError):
@@ -444,6 +441,10 @@ class Yw7File(File):
                             xmlScene.find('Minute').text = minutes
                         except(AttributeError):
                             ET.SubElement(xmlScene, 'Minute').text = minutes
+                    elif prjScn.time is not None:
+                        for tag in ('Hour', 'Minute'):
+                            if xmlScene.find(tag) is not None:
+                                xmlScene.remove(xmlScene.find(tag))
 
             #--- Write scene duration.
             if prjScn.lastsDays is not None:
@@ -1515,7 +1516,7 @@ class Yw7File(File):
                     # Check if Day represents an integer.
                     try:
                         int(day)
-                    except ValueError:
+                    except (TypeError, ValueError):
                         day = ''
                     self.novel.scenes[scId].day = day
 
-- 
2.43.0


From 353d1006b4ae4a976fca209741d7d5251aae84bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:56 +0000
Subject: [PATCH 37/47] fix: sections of a character were imported into the
 previous character if the description was missing

---
 src/pywriter/odt_r/odt_r_characters.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_characters.py b/src/pywriter/odt_r/odt_r_characters.py
index b44e79e..6305bc1 100644
--- a/src/pywriter/odt_r/odt_r_characters.py
+++ b/src/pywriter/odt_r/odt_r_characters.py
@@ -88,18 +88,14 @@ class OdtRCharacters(OdtReader):
         """
         if tag == 'div':
             if attrs[0][0] == 'id':
-                if attrs[0][1].startswith('CrID_desc'):
-                    self._crId = re.search(r'[0-9]+', attrs[0][1]).group()
-                    if not self._crId in self.novel.characters:
-                        self.novel.srtCharacters.append(self._crId)
-                        self.novel.characters[self._crId] = Character()
-                    self._section = 'desc'
-                elif attrs[0][1].startswith('CrID_bio'):
-                    self._section = 'bio'
-                elif attrs[0][1].startswith('CrID_goals'):
-                    self._section = 'goals'
-                elif attrs[0][1].startswith('CrID_notes'):
-                    self._section = 'notes'
+                for section in ('desc', 'bio', 'goals', 'notes'):
+                    if attrs[0][1].startswith(f'CrID_{section}'):
+                        self._crId = re.search(r'[0-9]+', attrs[0][1]).group()
+                        if not self._crId in self.novel.characters:
+                            self.novel.srtCharacters.append(self._crId)
+                            self.novel.characters[self._crId] = Character()
+                        self._section = section
+                        break
         elif tag == 's':
             self.handle_data(' ')
 
-- 
2.43.0


From 5b6df84500decb530477944937f3a0ebe80ae134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:50 +0000
Subject: [PATCH 38/47] fix: keep exported documents well-formed if a comment
 reaches across linebreaks within bold, italic or language markup

---
 src/pywriter/odt_w/odt_w_formatted.py | 71 ++++++++++++++++-----------
 src/pywriter/odt_w/odt_w_proof.py     | 34 +++----------
 2 files changed, 49 insertions(+), 56 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index fd53067..5773072 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -71,34 +71,12 @@ class OdtWFormatted(OdtWriter):
                     odtReplacements.append((f'[/lang={language}]', '</text:span>'))
 
                 #--- Process markup reaching across linebreaks.
-                newlines = []
-                lines = text.split('\n')
-                openTags = []
-                opening = {}
-                closing = {}
-                for tag in tags:
-                    opening[tag] = f'[{tag}]'
-                    closing[tag] = f'[/{tag}]'
-                for line in lines:
-                    # Reopen the markup in the order in which it was opened.
-                    for tag in reversed(openTags):
-                        if line.startswith('> '):
-                            line = f'> {opening[tag]}{line[2:]}'
-                        else:
-                            line = f'{opening[tag]}{line}'
-                    openTags = [tag for tag in tags if line.count(opening[tag]) > line.count(closing[tag])]
-                    openTags.sort(key=lambda tag: line.rfind(opening[tag]))
-                    # Close the innermost markup first.
-                    for tag in reversed(openTags):
-                        while line.count(opening[tag]) > line.count(closing[tag]):
-                            line = f'{line}{closing[tag]}'
-                        line = line.replace(f'{opening[tag]}{closing[tag]}', '')
-                    for tag in tags:
-                        while line.count(closing[tag]) > line.count(opening[tag]):
-                            line = f'{opening[tag]}{line}'
-                        line = line.replace(f'{opening[tag]}{closing[tag]}', '')
-                    newlines.append(line)
-                text = '\n'.join(newlines).rstrip()
+                # A comment is processed on its own, because it may reach across linebreaks within the markup.
+                text = re.sub(r'\/\*.*?\*\/',
+                              lambda comment: self._split_markup(comment.group(), tags).replace('\n', '\r'),
+                              text,
+                              flags=re.DOTALL)
+                text = self._split_markup(text, tags).replace('\r', '\n').rstrip()
 
             #--- Apply odt formating.
             for yw, od in odtReplacements:
@@ -178,3 +156,40 @@ class OdtWFormatted(OdtWriter):
                           '"Quotations">\\1', text)
         return text
 
+    def _split_markup(self, text, tags):
+        """Close the markup at the end of each line, and reopen it at the beginning of the next one.
+        
+        Positional arguments:
+            text: str -- text with yw7 markup.
+            tags: list -- names of the markup tags to process.
+        
+        Return the text.
+        """
+        newlines = []
+        lines = text.split('\n')
+        openTags = []
+        opening = {}
+        closing = {}
+        for tag in tags:
+            opening[tag] = f'[{tag}]'
+            closing[tag] = f'[/{tag}]'
+        for line in lines:
+            # Reopen the markup in the order in which it was opened.
+            for tag in reversed(openTags):
+                if line.startswith('> '):
+                    line = f'> {opening[tag]}{line[2:]}'
+                else:
+                    line = f'{opening[tag]}{line}'
+            openTags = [tag for tag in tags if line.count(opening[tag]) > line.count(closing[tag])]
+            openTags.sort(key=lambda tag: line.rfind(opening[tag]))
+            # Close the innermost markup first.
+            for tag in reversed(openTags):
+                while line.count(opening[tag]) > line.count(closing[tag]):
+                    line = f'{line}{closing[tag]}'
+                line = line.replace(f'{opening[tag]}{closing[tag]}', '')
+            for tag in tags:
+                while line.count(closing[tag]) > line.count(opening[tag]):
+                    line = f'{opening[tag]}{line}'
+                line = line.replace(f'{opening[tag]}{closing[tag]}', '')
+            newlines.append(line)
+        return '\n'.join(newlines)
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 8758d43..a8828ec 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -79,34 +79,12 @@ class OdtWProof(OdtWFormatted):
             ])
 
             #--- Process markup reaching across linebreaks.
-            newlines = []
-            lines = text.split('\n')
-            openTags = []
-            opening = {}
-            closing = {}
-            for tag in tags:
-                opening[tag] = f'[{tag}]'
-                closing[tag] = f'[/{tag}]'
-            for line in lines:
-                # Reopen the markup in the order in which it was opened.
-                for tag in reversed(openTags):
-                    if line.startswith('> '):
-                        line = f'> {opening[tag]}{line[2:]}'
-                    else:
-                        line = f'{opening[tag]}{line}'
-                openTags = [tag for tag in tags if line.count(opening[tag]) > line.count(closing[tag])]
-                openTags.sort(key=lambda tag: line.rfind(opening[tag]))
-                # Close the innermost markup first.
-                for tag in reversed(openTags):
-                    while line.count(opening[tag]) > line.count(closing[tag]):
-                        line = f'{line}{closing[tag]}'
-                    line = line.replace(f'{opening[tag]}{closing[tag]}', '')
-                for tag in tags:
-                    while line.count(closing[tag]) > line.count(opening[tag]):
-                        line = f'{opening[tag]}{line}'
-                    line = line.replace(f'{opening[tag]}{closing[tag]}', '')
-                newlines.append(line)
-            text = '\n'.join(newlines).rstrip()
+            # A comment is processed on its own, because it may reach across linebreaks within the markup.
+            text = re.sub(r'\/\*.*?\*\/',
+                          lambda comment: self._split_markup(comment.group(), tags).replace('\n', '\r'),
+                          text,
+                          flags=re.DOTALL)
+            text = self._split_markup(text, tags).replace('\r', '\n').rstrip()
 
             #--- Apply odt formating.
             for yw, od in odtReplacements:
-- 
2.43.0


From b52db00842b8f2dc15a09049126590fcf0442e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:15 +0000
Subject: [PATCH 39/47] fix: do not take titles and names with "/*" or "*/" for
 comments

---
 src/pywriter/odt_w/odt_w_formatted.py |  3 +++
 src/pywriter/odt_w/odt_w_proof.py     | 23 +++++++++++++++--------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 5773072..991ba2f 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -77,6 +77,9 @@ class OdtWFormatted(OdtWriter):
                               text,
                               flags=re.DOTALL)
                 text = self._split_markup(text, tags).replace('\r', '\n').rstrip()
+            else:
+                # A one-liner must not be taken for a comment.
+                odtReplacements.extend([('/*', '&#47;*'), ('*/', '*&#47;')])
 
             #--- Apply odt formating.
             for yw, od in odtReplacements:
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index a8828ec..9246973 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -6,7 +6,6 @@ Published under the MIT License (https://opensource.org/licenses/mit-license.php
 """
 import re
 from string import Template
-from xml.sax.saxutils import escape
 from pywriter.pywriter_globals import *
 from pywriter.odt_w.odt_w_formatted import OdtWFormatted
 
@@ -44,7 +43,7 @@ class OdtWProof(OdtWFormatted):
             text -- string to convert.
         
         Optional arguments:
-            quick: bool -- This argument is not used here.
+            quick: bool -- if True, do not convert comments.
         
         Apply direct formatting instead of the emphasizing character styles.
         Overrides the superclass method.
@@ -65,9 +64,16 @@ class OdtWProof(OdtWFormatted):
                 ('\r', '\n'),
                 ('[/i]', '</text:span>'),
                 ('[/b]', '</text:span>'),
-                ('/*', f'<office:annotation><dc:creator>{escape(self.novel.authorName or "")}</dc:creator><text:p>'),
-                ('*/', '</text:p></office:annotation>'),
             ])
+            if quick:
+                # A one-liner must not be taken for a comment.
+                odtReplacements.extend([('/*', '&#47;*'), ('*/', '*&#47;')])
+            else:
+                author = self._convert_from_yw(self.novel.authorName, True)
+                odtReplacements.extend([
+                    ('/*', f'<office:annotation><dc:creator>{author}</dc:creator><text:p>'),
+                    ('*/', '</text:p></office:annotation>'),
+                ])
             i = 0
             for i, language in enumerate(self.novel.languages, 1):
                 tags.append(f'lang={language}')
@@ -80,10 +86,11 @@ class OdtWProof(OdtWFormatted):
 
             #--- Process markup reaching across linebreaks.
             # A comment is processed on its own, because it may reach across linebreaks within the markup.
-            text = re.sub(r'\/\*.*?\*\/',
-                          lambda comment: self._split_markup(comment.group(), tags).replace('\n', '\r'),
-                          text,
-                          flags=re.DOTALL)
+            if not quick:
+                text = re.sub(r'\/\*.*?\*\/',
+                              lambda comment: self._split_markup(comment.group(), tags).replace('\n', '\r'),
+                              text,
+                              flags=re.DOTALL)
             text = self._split_markup(text, tags).replace('\r', '\n').rstrip()
 
             #--- Apply odt formating.
-- 
2.43.0


From af18447acbf2363f79ed35101987c95fe6517f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:20 +0000
Subject: [PATCH 40/47] fix: take only matching comment markers for comments in
 exported documents, and process the markup within a comment on its own

---
 src/pywriter/odt_w/odt_w_export.py    |  2 ++
 src/pywriter/odt_w/odt_w_formatted.py | 40 +++++++++++++++++++--------
 src/pywriter/odt_w/odt_w_proof.py     | 18 +++++-------
 3 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_export.py b/src/pywriter/odt_w/odt_w_export.py
index 0ca7242..7621766 100644
--- a/src/pywriter/odt_w/odt_w_export.py
+++ b/src/pywriter/odt_w/odt_w_export.py
@@ -75,6 +75,8 @@ class OdtWExport(OdtWFormatted):
                 ('[/i]', '</text:span>'),
                 ('[b]', '<text:span text:style-name="Strong_20_Emphasis">'),
                 ('[/b]', '</text:span>'),
+                (self._COMMENT_START, '/*'),
+                (self._COMMENT_END, '*/'),
                 ]
 
     def _get_text(self):
diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 991ba2f..a9950dc 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -18,6 +18,10 @@ class OdtWFormatted(OdtWriter):
     
     Provide methods for processing chapters with formatted text.
     """
+    # Internal markers for the comments to convert.
+    _COMMENT_START = '\x02'
+    _COMMENT_END = '\x03'
+
     _CONTENT_XML_HEADER = '''<?xml version="1.0" encoding="UTF-8"?>
 
 <office:document-content xmlns:office="urn:oasis:names:tc:opendocument:xmlns:office:1.0" xmlns:style="urn:oasis:names:tc:opendocument:xmlns:style:1.0" xmlns:text="urn:oasis:names:tc:opendocument:xmlns:text:1.0" xmlns:table="urn:oasis:names:tc:opendocument:xmlns:table:1.0" xmlns:draw="urn:oasis:names:tc:opendocument:xmlns:drawing:1.0" xmlns:fo="urn:oasis:names:tc:opendocument:xmlns:xsl-fo-compatible:1.0" xmlns:xlink="http://www.w3.org/1999/xlink" xmlns:dc="http://purl.org/dc/elements/1.1/" xmlns:meta="urn:oasis:names:tc:opendocument:xmlns:meta:1.0" xmlns:number="urn:oasis:names:tc:opendocument:xmlns:datastyle:1.0" xmlns:svg="urn:oasis:names:tc:opendocument:xmlns:svg-compatible:1.0" xmlns:chart="urn:oasis:names:tc:opendocument:xmlns:chart:1.0" xmlns:dr3d="urn:oasis:names:tc:opendocument:xmlns:dr3d:1.0" xmlns:math="http://www.w3.org/1998/Math/MathML" xmlns:form="urn:oasis:names:tc:opendocument:xmlns:form:1.0" xmlns:script="urn:oasis:names:tc:opendocument:xmlns:script:1.0" xmlns:ooo="http://openoffice.org/2004/office" xmlns:ooow="http://openoffice.org/2004/writer" xmlns:oooc="http://openoffice.org/2004/calc" xmlns:dom="http://www.w3.org/2001/xml-events" xmlns:xforms="http://www.w3.org/2002/xforms" xmlns:xsd="http://www.w3.org/2001/XMLSchema" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xmlns:rpt="http://openoffice.org/2005/report" xmlns:of="urn:oasis:names:tc:opendocument:xmlns:of:1.2" xmlns:xhtml="http://www.w3.org/1999/xhtml" xmlns:grddl="http://www.w3.org/2003/g/data-view#" xmlns:tableooo="http://openoffice.org/2009/table" xmlns:field="urn:openoffice:names:experimental:ooo-ms-interop:xmlns:field:1.0" office:version="1.2">
@@ -61,6 +65,9 @@ class OdtWFormatted(OdtWriter):
                 ('<', '&lt;'),
                 ("'", '&apos;'),
                 ('"', '&quot;'),
+                # What is left of the comment markers must not be taken for a comment.
+                ('/*', '&#47;*'),
+                ('*/', '*&#47;'),
                 ]
             if not quick:
                 tags = ['i', 'b']
@@ -71,15 +78,7 @@ class OdtWFormatted(OdtWriter):
                     odtReplacements.append((f'[/lang={language}]', '</text:span>'))
 
                 #--- Process markup reaching across linebreaks.
-                # A comment is processed on its own, because it may reach across linebreaks within the markup.
-                text = re.sub(r'\/\*.*?\*\/',
-                              lambda comment: self._split_markup(comment.group(), tags).replace('\n', '\r'),
-                              text,
-                              flags=re.DOTALL)
-                text = self._split_markup(text, tags).replace('\r', '\n').rstrip()
-            else:
-                # A one-liner must not be taken for a comment.
-                odtReplacements.extend([('/*', '&#47;*'), ('*/', '*&#47;')])
+                text = self._split_markup(self._mark_comments(text, tags), tags).replace('\r', '\n').rstrip()
 
             #--- Apply odt formating.
             for yw, od in odtReplacements:
@@ -132,8 +131,8 @@ class OdtWFormatted(OdtWriter):
                 ('[/i]', '</text:span>'),
                 ('[b]', '<text:span text:style-name="Strong_20_Emphasis">'),
                 ('[/b]', '</text:span>'),
-                ('/*', f'<office:annotation><dc:creator>{self._convert_from_yw(self.novel.authorName, True)}</dc:creator><text:p>'),
-                ('*/', '</text:p></office:annotation>'),
+                (self._COMMENT_START, f'<office:annotation><dc:creator>{self._convert_from_yw(self.novel.authorName, True)}</dc:creator><text:p>'),
+                (self._COMMENT_END, '</text:p></office:annotation>'),
                 ]
 
     def _get_text(self):
@@ -159,6 +158,25 @@ class OdtWFormatted(OdtWriter):
                           '"Quotations">\\1', text)
         return text
 
+    def _mark_comments(self, text, tags):
+        """Process the markup within the comments, and mark the comments.
+        
+        Positional arguments:
+            text: str -- text with yw7 markup.
+            tags: list -- names of the markup tags to process.
+        
+        A comment is processed on its own, because it may reach across linebreaks within the markup.
+        Therefore, carriage returns replace the linebreaks within the comments.
+        Comment markers without counterpart are not changed.
+        Return the text.
+        """
+
+        def mark_comment(comment):
+            content = self._split_markup(comment.group(1), tags).replace('\n', '\r')
+            return f'{self._COMMENT_START}{content}{self._COMMENT_END}'
+
+        return re.sub(r'\/\*(.*?)\*\/', mark_comment, text, flags=re.DOTALL)
+
     def _split_markup(self, text, tags):
         """Close the markup at the end of each line, and reopen it at the beginning of the next one.
         
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 9246973..00f0334 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -56,6 +56,9 @@ class OdtWProof(OdtWFormatted):
                 ('<', '&lt;'),
                 ("'", '&apos;'),
                 ('"', '&quot;'),
+                # What is left of the comment markers must not be taken for a comment.
+                ('/*', '&#47;*'),
+                ('*/', '*&#47;'),
                 ]
             tags = ['i', 'b']
             odtReplacements.extend([
@@ -65,14 +68,11 @@ class OdtWProof(OdtWFormatted):
                 ('[/i]', '</text:span>'),
                 ('[/b]', '</text:span>'),
             ])
-            if quick:
-                # A one-liner must not be taken for a comment.
-                odtReplacements.extend([('/*', '&#47;*'), ('*/', '*&#47;')])
-            else:
+            if not quick:
                 author = self._convert_from_yw(self.novel.authorName, True)
                 odtReplacements.extend([
-                    ('/*', f'<office:annotation><dc:creator>{author}</dc:creator><text:p>'),
-                    ('*/', '</text:p></office:annotation>'),
+                    (self._COMMENT_START, f'<office:annotation><dc:creator>{author}</dc:creator><text:p>'),
+                    (self._COMMENT_END, '</text:p></office:annotation>'),
                 ])
             i = 0
             for i, language in enumerate(self.novel.languages, 1):
@@ -85,12 +85,8 @@ class OdtWProof(OdtWFormatted):
             ])
 
             #--- Process markup reaching across linebreaks.
-            # A comment is processed on its own, because it may reach across linebreaks within the markup.
             if not quick:
-                text = re.sub(r'\/\*.*?\*\/',
-                              lambda comment: self._split_markup(comment.group(), tags).replace('\n', '\r'),
-                              text,
-                              flags=re.DOTALL)
+                text = self._mark_comments(text, tags)
             text = self._split_markup(text, tags).replace('\r', '\n').rstrip()
 
             #--- Apply odt formating.
-- 
2.43.0


From 9b166dd11f8c880ad661bab748d94b470dead9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:31 +0000
Subject: [PATCH 41/47] fix: export language tags only if they contain a
 language code, and keep codes without country

---
 src/pywriter/odt_w/odt_w_formatted.py | 9 ++++++++-
 src/pywriter/odt_w/odt_w_proof.py     | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index a9950dc..602d241 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -73,6 +73,10 @@ class OdtWFormatted(OdtWriter):
                 tags = ['i', 'b']
                 odtReplacements.extend(self._get_replacements())
                 for i, language in enumerate(self.novel.languages, 1):
+                    if not re.fullmatch(r'[\w-]+', language):
+                        # This is not a language code, so the tags are text.
+                        continue
+
                     tags.append(f'lang={language}')
                     odtReplacements.append((f'[lang={language}]', f'<text:span text:style-name="T{i}">'))
                     odtReplacements.append((f'[/lang={language}]', '</text:span>'))
@@ -102,10 +106,13 @@ class OdtWFormatted(OdtWriter):
         if self.novel.languages:
             lines = ['<office:automatic-styles>']
             for i, language in enumerate(self.novel.languages, 1):
+                if not re.fullmatch(r'[\w-]+', language):
+                    continue
+
                 try:
                     lngCode, ctrCode = language.split('-')
                 except:
-                    lngCode = 'zxx'
+                    lngCode = language
                     ctrCode = 'none'
                 lines.append((f'  <style:style style:name="T{i}" style:family="text">\n'
                               f'   <style:text-properties fo:language="{lngCode}" fo:country="{ctrCode}" '
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 00f0334..bbdd333 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -76,6 +76,10 @@ class OdtWProof(OdtWFormatted):
                 ])
             i = 0
             for i, language in enumerate(self.novel.languages, 1):
+                if not re.fullmatch(r'[\w-]+', language):
+                    # This is not a language code, so the tags are text.
+                    continue
+
                 tags.append(f'lang={language}')
                 odtReplacements.append((f'[lang={language}]', f'<text:span text:style-name="T{i}">'))
                 odtReplacements.append((f'[/lang={language}]', '</text:span>'))
@@ -111,10 +115,13 @@ class OdtWProof(OdtWFormatted):
         i = 0
         lines = ['<office:automatic-styles>']
         for i, language in enumerate(self.novel.languages, 1):
+            if not re.fullmatch(r'[\w-]+', language):
+                continue
+
             try:
                 lngCode, ctrCode = language.split('-')
             except:
-                lngCode = 'zxx'
+                lngCode = language
                 ctrCode = 'none'
             lines.append(f'''  <style:style style:name="T{i}" style:family="text">
    <style:text-properties fo:language="{lngCode}" fo:country="{ctrCode}" style:language-asian="{lngCode}" style:country-asian="{ctrCode}" style:language-complex="{lngCode}" style:country-complex="{ctrCode}"/>
-- 
2.43.0


From 0ad6158945c16729ce848720f413b85455fbeba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:23 +0000
Subject: [PATCH 42/47] fix: save projects whose language or country variable
 has no description

---
 src/pywriter/yw/yw7_file.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index a247648..5be2090 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1010,11 +1010,17 @@ class Yw7File(File):
 
                 # Get the document's locale.
                 elif title == 'Language':
-                    xmlProjectvar.find('Desc').text = self.novel.languageCode
+                    xmlDesc = xmlProjectvar.find('Desc')
+                    if xmlDesc is None:
+                        xmlDesc = ET.SubElement(xmlProjectvar, 'Desc')
+                    xmlDesc.text = self.novel.languageCode
                     hasLanguageCode = True
 
                 elif title == 'Country':
-                    xmlProjectvar.find('Desc').text = self.novel.countryCode
+                    xmlDesc = xmlProjectvar.find('Desc')
+                    if xmlDesc is None:
+                        xmlDesc = ET.SubElement(xmlProjectvar, 'Desc')
+                    xmlDesc.text = self.novel.countryCode
                     hasCountryCode = True
 
             # Define project variables for the missing locale.
-- 
2.43.0


From 790f21c0074eba83ad0aed1138c3c78bac42f8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:23 +0000
Subject: [PATCH 43/47] fix: keep blank lines at the beginning of a scene when
 importing a proofread document

---
 src/pywriter/odt_r/odt_r_proof.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_r_proof.py b/src/pywriter/odt_r/odt_r_proof.py
index bc7df92..ac27eca 100644
--- a/src/pywriter/odt_r/odt_r_proof.py
+++ b/src/pywriter/odt_r/odt_r_proof.py
@@ -40,7 +40,10 @@ class OdtRProof(OdtRFormatted):
             elif '[/ScID' in data:
                 if self._scId in self.novel.scenes:
                     text = ''.join(self._lines)
-                    self.novel.scenes[self._scId].sceneContent = self._cleanup_scene(text).strip()
+                    if text.startswith('\n'):
+                        # The first linebreak is that of the marker.
+                        text = text[1:]
+                    self.novel.scenes[self._scId].sceneContent = self._cleanup_scene(text).rstrip()
                     self._lines = []
                 self._scId = None
             elif self._scId is not None:
-- 
2.43.0


From af220d947a216fb3e09f88d7657ad3a072c60342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:23 +0000
Subject: [PATCH 44/47] fix: do not lose quotations and list items at the
 beginning of an imported scene

---
 src/pywriter/odt_r/odt_r_import.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_r_import.py b/src/pywriter/odt_r/odt_r_import.py
index bd2f7a0..3c80697 100644
--- a/src/pywriter/odt_r/odt_r_import.py
+++ b/src/pywriter/odt_r/odt_r_import.py
@@ -131,7 +131,7 @@ class OdtRImport(OdtRFormatted):
         
         Overrides the superclass method.
         """
-        if tag == 'p':
+        if tag in ('p', 'li', 'blockquote'):
             if self._scId is None and self._chId is not None:
                 self._lines = []
                 self._scCount += 1
@@ -141,6 +141,7 @@ class OdtRImport(OdtRFormatted):
                 self.novel.scenes[self._scId].status = 1
                 self.novel.scenes[self._scId].scType = 0
                 self.novel.scenes[self._scId].title = f'{_("Scene")} {self._scCount}'
+        if tag == 'p':
             try:
                 if attrs[0][0] == 'lang':
                     self._language = attrs[0][1]
-- 
2.43.0


From eb5b7d50f2c8fa32860dec69e37da9232a380dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:23 +0000
Subject: [PATCH 45/47] fix: do not lose quotations when importing an outline

---
 src/pywriter/odt_r/odt_r_outline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_r_outline.py b/src/pywriter/odt_r/odt_r_outline.py
index 1ef2e6f..19cbf69 100644
--- a/src/pywriter/odt_r/odt_r_outline.py
+++ b/src/pywriter/odt_r/odt_r_outline.py
@@ -64,7 +64,7 @@ class OdtROutline(OdtReader):
         Overrides the superclass method.
         """
         text = ''.join(self._lines)
-        if tag == 'p':
+        if tag in ('p', 'blockquote'):
             text = f'{text.strip()}\n'
             self._lines = [text]
             if self._scId is not None:
-- 
2.43.0


From c9ea439903265fe65226b0367882ab05aa20c409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:46:06 +0000
Subject: [PATCH 46/47] fix: end the formatting of a span as it was begun when
 reading a document

---
 src/pywriter/odt_r/odt_parser.py | 50 ++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index bd4bead..dfdba12 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -123,7 +123,7 @@ class OdtParser(sax.ContentHandler):
         if name == 'text:p':
             if self._commentParagraphCount is None:
                 while self._span:
-                    self._client.handle_endtag(self._span.pop())
+                    self._end_span()
                 if self._blockquote:
                     self._client.handle_endtag('blockquote')
                     self._blockquote = False
@@ -134,8 +134,8 @@ class OdtParser(sax.ContentHandler):
                     self._client.handle_endtag('p')
                 self._paragraph = False
         elif name == 'text:span':
-            if self._span:
-                self._client.handle_endtag(self._span.pop())
+            if self._span and self._commentParagraphCount is None:
+                self._end_span()
         elif name == 'text:section':
             self._client.handle_endtag('div')
         elif name == 'office:annotation':
@@ -181,22 +181,11 @@ class OdtParser(sax.ContentHandler):
             else:
                 self._client.handle_starttag('p', param)
                 self._paragraph = True
-            if style in self._emTags:
-                self._span.append('em')
-                self._client.handle_starttag('em', [()])
-            if style in self._strongTags:
-                self._span.append('strong')
-                self._client.handle_starttag('strong', [()])
+            if self._commentParagraphCount is None:
+                self._start_span(style)
         elif name == 'text:span':
-            if style in self._emTags:
-                self._span.append('em')
-                self._client.handle_starttag('em', [()])
-            if style in self._strongTags:
-                self._span.append('strong')
-                self._client.handle_starttag('strong', [()])
-            if style in self._languageTags:
-                self._span.append('lang')
-                self._client.handle_starttag('lang', [('lang', self._languageTags[style])])
+            if self._commentParagraphCount is None:
+                self._start_span(style, self._languageTags.get(style, None))
         elif name == 'text:section':
             sectionId = xmlAttributes['text:name']
             self._client.handle_starttag('div', [('id', sectionId)])
@@ -234,3 +223,28 @@ class OdtParser(sax.ContentHandler):
         elif name == 'text:s':
             self._client.handle_starttag('s', [()])
 
+    def _start_span(self, style, locale=None):
+        """Begin the formatting that belongs to a style, and remember it in order to end it all at once.
+        
+        Positional arguments:
+            style: str -- name of the style.
+            
+        Optional arguments:
+            locale: str -- language tag, if the language is to be marked.        
+        """
+        span = []
+        self._span.append(span)
+        if style in self._emTags:
+            span.append('em')
+            self._client.handle_starttag('em', [()])
+        if style in self._strongTags:
+            span.append('strong')
+            self._client.handle_starttag('strong', [()])
+        if locale is not None:
+            span.append('lang')
+            self._client.handle_starttag('lang', [('lang', locale)])
+
+    def _end_span(self):
+        """End the formatting begun most recently."""
+        for tag in reversed(self._span.pop()):
+            self._client.handle_endtag(tag)
-- 
2.43.0


From b764f62d0842dd98347654984f5edd621d85755f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:46:06 +0000
Subject: [PATCH 47/47] fix: do not lose the language of list items when
 reading a document

---
 src/pywriter/odt_r/odt_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index dfdba12..bb568c9 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -160,6 +160,7 @@ class OdtParser(sax.ContentHandler):
             xmlAttributes[attrKey] = attrValue
         style = xmlAttributes.get('text:style-name', '')
         if name == 'text:p':
+            listLocale = None
             param = [()]
             if style in self._languageTags:
                 param = [('lang', self._languageTags[style])]
@@ -178,11 +179,12 @@ class OdtParser(sax.ContentHandler):
             elif self._list:
                 self._client.handle_starttag('li', [()])
                 self._paragraph = True
+                listLocale = self._languageTags.get(style, None)
             else:
                 self._client.handle_starttag('p', param)
                 self._paragraph = True
             if self._commentParagraphCount is None:
-                self._start_span(style)
+                self._start_span(style, listLocale)
         elif name == 'text:span':
             if self._commentParagraphCount is None:
                 self._start_span(style, self._languageTags.get(style, None))
-- 
2.43.0


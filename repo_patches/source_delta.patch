From dbb0c8652dcadcd6feec5ea2a10d5d5f3ab0e0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 01/83] fix: keep vertical bars when reading a yWriter project

The pattern that removes control characters listed '|' inside the
character class, so every vertical bar was deleted from the project.
---
 src/pywriter/yw/yw7_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 1de5d10..c82b3e8 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -152,7 +152,7 @@ class Yw7File(File):
             except Exception as ex:
                 raise Error(f'{_("Can not process file")} - {str(ex)}')
 
-        xmlText = re.sub('[\x00-\x08|\x0b-\x0c|\x0e-\x1f]', '', xmlText)
+        xmlText = re.sub('[\x00-\x08\x0b-\x0c\x0e-\x1f]', '', xmlText)
         root = ET.fromstring(xmlText)
         xmlText = None
         # saving memory
-- 
2.43.0


From 8f9245298c53f223452d21a8a13e97568e304648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 02/83] fix: write scene item links with the tag yWriter uses

Items were written as ItmID but are read as ItemID, so the links
got lost at the next read.
---
 src/pywriter/yw/yw7_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index c82b3e8..313d237 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -529,7 +529,7 @@ class Yw7File(File):
             if prjScn.items:
                 xmlItems = ET.SubElement(xmlScene, 'Items')
                 for ItId in prjScn.items:
-                    ET.SubElement(xmlItems, 'ItmID').text = ItId
+                    ET.SubElement(xmlItems, 'ItemID').text = ItId
 
         def build_chapter_subtree(xmlChapter, prjChp):
             # This is how yWriter 7.1.3.0 writes the chapter type:
-- 
2.43.0


From 3c0b4498682790ecfd5fe2c1546e0f82a2f8c866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 03/83] fix: keep saved yWriter projects well-formed XML

Unescaping the whole file after ElementTree.write broke every element
outside of the CDATA list, every text containing ']]>', and attributes.
Now only the text inside of CDATA sections is unescaped, and custom
fields are no longer escaped twice.
---
 src/pywriter/yw/yw7_file.py | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 313d237..5ac4ab0 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -321,7 +321,7 @@ class Yw7File(File):
                 if prjScn.kwVar.get(field, None):
                     if xmlSceneFields is None:
                         xmlSceneFields = ET.SubElement(xmlScene, 'Fields')
-                    fieldEntry = self._convert_from_yw(prjScn.kwVar[field])
+                    fieldEntry = prjScn.kwVar[field]
                     try:
                         xmlSceneFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -614,7 +614,7 @@ class Yw7File(File):
                     if xmlChapterFields is None:
                         xmlChapterFields = ET.Element('Fields')
                         xmlChapter.insert(i, xmlChapterFields)
-                    fieldEntry = self._convert_from_yw(prjChp.kwVar[field])
+                    fieldEntry = prjChp.kwVar[field]
                     try:
                         xmlChapterFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -673,7 +673,7 @@ class Yw7File(File):
                 if prjLoc.kwVar.get(field, None):
                     if xmlLocationFields is None:
                         xmlLocationFields = ET.SubElement(xmlLoc, 'Fields')
-                    fieldEntry = self._convert_from_yw(prjLoc.kwVar[field])
+                    fieldEntry = prjLoc.kwVar[field]
                     try:
                         xmlLocationFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -729,7 +729,7 @@ class Yw7File(File):
                 if prjItm.kwVar.get(field, None):
                     if xmlItemFields is None:
                         xmlItemFields = ET.SubElement(xmlItm, 'Fields')
-                    fieldEntry = self._convert_from_yw(prjItm.kwVar[field])
+                    fieldEntry = prjItm.kwVar[field]
                     try:
                         xmlItemFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -781,7 +781,7 @@ class Yw7File(File):
                 if prjCrt.kwVar.get(field, None):
                     if xmlCharacterFields is None:
                         xmlCharacterFields = ET.SubElement(xmlCrt, 'Fields')
-                    fieldEntry = self._convert_from_yw(prjCrt.kwVar[field])
+                    fieldEntry = prjCrt.kwVar[field]
                     try:
                         xmlCharacterFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -876,7 +876,7 @@ class Yw7File(File):
                 if setting:
                     if xmlProjectFields is None:
                         xmlProjectFields = ET.SubElement(xmlProject, 'Fields')
-                    fieldEntry = self._convert_from_yw(setting)
+                    fieldEntry = setting
                     try:
                         xmlProjectFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -1133,20 +1133,23 @@ class Yw7File(File):
         """
         with open(filePath, 'r', encoding='utf-8') as f:
             text = f.read()
-        lines = text.split('\n')
-        newlines = ['<?xml version="1.0" encoding="utf-8"?>']
-        for line in lines:
-            for tag in self._CDATA_TAGS:
-                line = re.sub(fr'\<{tag}\>', f'<{tag}><![CDATA[', line)
-                line = re.sub(fr'\<\/{tag}\>', f']]></{tag}>', line)
-            newlines.append(line)
-        text = '\n'.join(newlines)
-        text = text.replace('[CDATA[ \n', '[CDATA[')
-        text = text.replace('\n]]', ']]')
+
+        def insert_cdata(match):
+            # Only the text inside of CDATA sections must not be escaped.
+            tag, content = match.groups()
+            if content.startswith(' \n'):
+                content = content[2:]
+            if content.endswith('\n'):
+                content = content[:-1]
+            content = unescape(content).replace(']]>', ']]]]><![CDATA[>')
+            return f'<{tag}><![CDATA[{content}]]></{tag}>'
+
+        tags = '|'.join(self._CDATA_TAGS)
+        text = re.sub(fr'<({tags})>([^<]*)</\1>', insert_cdata, text)
+        text = f'<?xml version="1.0" encoding="utf-8"?>\n{text}'
         if not self.novel.chapters:
             text = text.replace('<CHAPTERS />', '<CHAPTERS></CHAPTERS>')
             # otherwise, yWriter fails to parse the file if there are no chapters.
-        text = unescape(text)
         try:
             with open(filePath, 'w', encoding='utf-8') as f:
                 f.write(text)
-- 
2.43.0


From 2307b29b24360fa58d62c6bf51db45be80f23600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 04/83] fix: restore the project if finishing a save fails

If the postprocessing step failed, the project file was left truncated
or unfinished although the backup of the previous version was at hand.
---
 src/pywriter/yw/yw7_file.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 5ac4ab0..18c795f 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -201,8 +201,13 @@ class Yw7File(File):
                     self.novel.scenes[scId].kwVar['Field_SceneMode'] = str(self.novel.scenes[scId].scnMode)
             self.novel.scenes[scId].kwVar['Field_SceneStyle'] = None
         self._build_element_tree()
-        self._write_element_tree(self)
-        self._postprocess_xml_file(self.filePath)
+        backedUp = self._write_element_tree(self)
+        try:
+            self._postprocess_xml_file(self.filePath)
+        except:
+            if backedUp:
+                os.replace(f'{self.filePath}.bak', self.filePath)
+            raise
 
     def _build_element_tree(self):
         """Modify the yWriter project attributes of an existing xml element tree."""
@@ -1687,6 +1692,7 @@ class Yw7File(File):
     def _write_element_tree(self, ywProject):
         """Write back the xml element tree to a .yw7 xml file located at filePath.
         
+        Return True, if the existing file was backed up.
         Raise the "Error" exception in case of error. 
         """
         backedUp = False
@@ -1703,4 +1709,5 @@ class Yw7File(File):
             if backedUp:
                 os.replace(f'{ywProject.filePath}.bak', ywProject.filePath)
             raise Error(f'{_("Cannot write file")}: "{norm_path(ywProject.filePath)}".')
+        return backedUp
 
-- 
2.43.0


From fd5a46786e04c6b41b75154d0243e5bfcffe23a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 05/83] fix: handle project files that are neither UTF-8 nor
 UTF-16

The successful fallback parser was followed by an access to an unbound
variable, and files with broken XML raised ParseError instead of Error.
---
 src/pywriter/yw/yw7_file.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 18c795f..f2a20ad 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -152,11 +152,17 @@ class Yw7File(File):
             except Exception as ex:
                 raise Error(f'{_("Can not process file")} - {str(ex)}')
 
-        xmlText = re.sub('[\x00-\x08\x0b-\x0c\x0e-\x1f]', '', xmlText)
-        root = ET.fromstring(xmlText)
-        xmlText = None
-        # saving memory
-        self.tree = ET.ElementTree(root)
+            root = self.tree.getroot()
+        else:
+            xmlText = re.sub('[\x00-\x08\x0b-\x0c\x0e-\x1f]', '', xmlText)
+            try:
+                root = ET.fromstring(xmlText)
+            except Exception as ex:
+                raise Error(f'{_("Can not process file")} - {str(ex)}')
+
+            xmlText = None
+            # saving memory
+            self.tree = ET.ElementTree(root)
         self._read_project(root)
         self._read_locations(root)
         self._read_items(root)
-- 
2.43.0


From e75fda14e03ec3e8a75ec877388652e0f5741d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 06/83] fix: read scenes with empty Day, Hour or Minute
 elements

Such elements are even written by this library when the day is cleared
while there is a time; reading them raised TypeError or AttributeError.
---
 src/pywriter/yw/yw7_file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index f2a20ad..be1e940 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1515,18 +1515,18 @@ class Yw7File(File):
                     # Check if Day represents an integer.
                     try:
                         int(day)
-                    except ValueError:
+                    except (ValueError, TypeError):
                         day = ''
                     self.novel.scenes[scId].day = day
 
                 hasUnspecificTime = False
                 if xmlScene.find('Hour') is not None:
-                    hour = xmlScene.find('Hour').text.zfill(2)
+                    hour = (xmlScene.find('Hour').text or '').zfill(2)
                     hasUnspecificTime = True
                 else:
                     hour = '00'
                 if xmlScene.find('Minute') is not None:
-                    minute = xmlScene.find('Minute').text.zfill(2)
+                    minute = (xmlScene.find('Minute').text or '').zfill(2)
                     hasUnspecificTime = True
                 else:
                     minute = '00'
-- 
2.43.0


From 8915bba54a410bb17a4f6f1ce9c1d34db689a041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 07/83] fix: do not lose project notes if one of them has
 custom fields

An unbound name raised NameError, which was swallowed, so that the
remaining notes were neither read nor written back.
---
 src/pywriter/yw/yw7_file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index be1e940..2f3575a 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1374,9 +1374,10 @@ class Yw7File(File):
 
                 #--- Read project note custom fields.
                 for pnFields in xmlProjectnote.findall('Fields'):
-                    field = pnFields.find(fieldName)
-                    if field is not None:
-                        self.novel.projectNotes[pnId].kwVar[fieldName] = field.text
+                    for fieldName in self.PNT_KWVAR:
+                        field = pnFields.find(fieldName)
+                        if field is not None:
+                            self.novel.projectNotes[pnId].kwVar[fieldName] = field.text
         except:
             pass
 
-- 
2.43.0


From a4ba076726d4354c35a27591639240ee5fff9b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 08/83] fix: tolerate project variables without a title

Reading stopped at such a variable, so that the language setting could
get lost, and saving failed with AttributeError.
---
 src/pywriter/yw/yw7_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 2f3575a..838c5fd 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1004,7 +1004,7 @@ class Yw7File(File):
             hasCountryCode = False
             for xmlProjectvar in xmlProjectvars.findall('PROJECTVAR'):
                 prjVars.append(xmlProjectvar.find('ID').text)
-                title = xmlProjectvar.find('Title').text
+                title = xmlProjectvar.findtext('Title', '')
 
                 # Collect language codes.
                 if title.startswith('lang='):
@@ -1395,7 +1395,7 @@ class Yw7File(File):
                         if xmlProjectvar.find('Desc') is not None:
                             self.novel.countryCode = xmlProjectvar.find('Desc').text
 
-                    elif title.startswith('lang='):
+                    elif title is not None and title.startswith('lang='):
                         try:
                             __, langCode = title.split('=')
                             if self.novel.languages is None:
-- 
2.43.0


From 21576b2620f373eb33cff29a22b31031bae02c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 09/83] fix: write documents back to the project they belong to

If the suffix occurred elsewhere in the path (e.g. test_notes_notes.odt or
a folder my_scenes), all occurrences were removed, so that the project was not
found, or the document was written into another project.
---
 src/pywriter/converter/import_target_factory.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/converter/import_target_factory.py b/src/pywriter/converter/import_target_factory.py
index 55e7c35..b1a136b 100644
--- a/src/pywriter/converter/import_target_factory.py
+++ b/src/pywriter/converter/import_target_factory.py
@@ -37,10 +37,10 @@ class ImportTargetFactory(FileFactory):
             # Remove the suffix from the source file name.
             # This should also work if the file name already contains the suffix,
             # e.g. "test_notes_notes.odt".
-            e = fileName.split(sourceSuffix)
-            if len(e) > 1:
-                e.pop()
-            ywPathBasis = ''.join(e)
+            if fileName.endswith(sourceSuffix):
+                ywPathBasis = fileName[:-len(sourceSuffix)]
+            else:
+                ywPathBasis = fileName
         else:
             ywPathBasis = fileName
 
-- 
2.43.0


From 1143fabe294eb1d937537509ea3f2b9f85cc223a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 10/83] fix: do not crash without a system locale

---
 src/pywriter/model/novel.py      | 8 ++++++--
 src/pywriter/pywriter_globals.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/model/novel.py b/src/pywriter/model/novel.py
index 5753468..b9c5e08 100644
--- a/src/pywriter/model/novel.py
+++ b/src/pywriter/model/novel.py
@@ -177,8 +177,12 @@ class Novel(BasicElement):
             try:
                 sysLng, sysCtr = locale.getlocale()[0].split('_')
             except:
-                # Fallback for old Windows versions.
-                sysLng, sysCtr = locale.getdefaultlocale()[0].split('_')
+                try:
+                    # Fallback for old Windows versions.
+                    sysLng, sysCtr = locale.getdefaultlocale()[0].split('_')
+                except:
+                    # There is no system locale.
+                    sysLng, sysCtr = 'zxx', 'none'
             self.languageCode = sysLng
             self.countryCode = sysCtr
             return
diff --git a/src/pywriter/pywriter_globals.py b/src/pywriter/pywriter_globals.py
index 5e4eea7..056e94e 100644
--- a/src/pywriter/pywriter_globals.py
+++ b/src/pywriter/pywriter_globals.py
@@ -29,8 +29,12 @@ LOCALE_PATH = f'{os.path.dirname(sys.argv[0])}/locale/'
 try:
     CURRENT_LANGUAGE = locale.getlocale()[0][:2]
 except:
-    # Fallback for old Windows versions.
-    CURRENT_LANGUAGE = locale.getdefaultlocale()[0][:2]
+    try:
+        # Fallback for old Windows versions.
+        CURRENT_LANGUAGE = locale.getdefaultlocale()[0][:2]
+    except:
+        # There is no system locale.
+        CURRENT_LANGUAGE = 'en'
 try:
     t = gettext.translation('pywriter', LOCALE_PATH, languages=[CURRENT_LANGUAGE])
     _ = t.gettext
-- 
2.43.0


From d4f18eed5aa329234365ce968e1ced5d37dc0436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 11/83] fix: put the uncompressed mimetype first into ODF
 packages

---
 src/pywriter/odf/odf_file.py     | 6 +++++-
 src/pywriter/ods_w/ods_writer.py | 2 +-
 src/pywriter/odt_w/odt_writer.py | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index 85d1186..a00b4cd 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -83,7 +83,11 @@ class OdfFile(FileExport):
             with zipfile.ZipFile(self.filePath, 'w') as odfTarget:
                 os.chdir(self._tempDir)
                 for file in self._ODF_COMPONENTS:
-                    odfTarget.write(file, compress_type=zipfile.ZIP_DEFLATED)
+                    if file == 'mimetype':
+                        # The mimetype must be the first component, and must not be compressed.
+                        odfTarget.write(file, compress_type=zipfile.ZIP_STORED)
+                    else:
+                        odfTarget.write(file, compress_type=zipfile.ZIP_DEFLATED)
         except:
             os.chdir(workdir)
             if backedUp:
diff --git a/src/pywriter/ods_w/ods_writer.py b/src/pywriter/ods_w/ods_writer.py
index cb58888..53b5dfb 100644
--- a/src/pywriter/ods_w/ods_writer.py
+++ b/src/pywriter/ods_w/ods_writer.py
@@ -12,7 +12,7 @@ from pywriter.odf.odf_file import OdfFile
 class OdsWriter(OdfFile):
     """Generic OpenDocument spreadsheet document writer."""
     EXTENSION = '.ods'
-    _ODF_COMPONENTS = ['META-INF', 'content.xml', 'meta.xml', 'mimetype',
+    _ODF_COMPONENTS = ['mimetype', 'META-INF', 'content.xml', 'meta.xml',
                       'settings.xml', 'styles.xml', 'META-INF/manifest.xml']
 
     # Column width:
diff --git a/src/pywriter/odt_w/odt_writer.py b/src/pywriter/odt_w/odt_writer.py
index 4ff264d..3f1c39e 100644
--- a/src/pywriter/odt_w/odt_writer.py
+++ b/src/pywriter/odt_w/odt_writer.py
@@ -16,7 +16,7 @@ class OdtWriter(OdfFile):
     EXTENSION = '.odt'
     # overwrites Novel.EXTENSION
 
-    _ODF_COMPONENTS = ['manifest.rdf', 'META-INF', 'content.xml', 'meta.xml', 'mimetype',
+    _ODF_COMPONENTS = ['mimetype', 'manifest.rdf', 'META-INF', 'content.xml', 'meta.xml',
                       'settings.xml', 'styles.xml', 'META-INF/manifest.xml']
 
     _CONTENT_XML_HEADER = '''<?xml version="1.0" encoding="UTF-8"?>
-- 
2.43.0


From 2b40f2470d6655dfd3f9637214b9384709638af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 12/83] fix: do not leave an incomplete document if writing
 fails

---
 src/pywriter/odf/odf_file.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index a00b4cd..d543ade 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -66,8 +66,10 @@ class OdfFile(FileExport):
         #--- Add "content.xml" to the temporary directory.
         self._originalPath = self._filePath
         self._filePath = f'{self._tempDir}/content.xml'
-        self.write_content_xml()
-        self._filePath = self._originalPath
+        try:
+            self.write_content_xml()
+        finally:
+            self._filePath = self._originalPath
 
         #--- Pack the contents of the temporary directory into the ODF file.
         workdir = os.getcwd()
@@ -92,6 +94,9 @@ class OdfFile(FileExport):
             os.chdir(workdir)
             if backedUp:
                 os.replace(f'{self.filePath}.bak', self.filePath)
+            elif os.path.isfile(self.filePath):
+                # Do not leave an incomplete file.
+                os.remove(self.filePath)
             raise Error(f'{_("Cannot create file")}: "{norm_path(self.filePath)}".')
 
         #--- Remove temporary data.
-- 
2.43.0


From 01bd2ab5492d6b8cfc945fc3c9dfb7682e1702bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 13/83] fix: do not leave an incomplete project if creating it
 fails

---
 src/pywriter/file/file_export.py | 3 +++
 src/pywriter/yw/yw7_file.py      | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/pywriter/file/file_export.py b/src/pywriter/file/file_export.py
index 9e5aded..f4582cd 100644
--- a/src/pywriter/file/file_export.py
+++ b/src/pywriter/file/file_export.py
@@ -98,6 +98,9 @@ class FileExport(File):
         except:
             if backedUp:
                 os.replace(f'{self.filePath}.bak', self.filePath)
+            elif os.path.isfile(self.filePath):
+                # Do not leave an incomplete file.
+                os.remove(self.filePath)
             raise Error(f'{_("Cannot write file")}: "{norm_path(self.filePath)}".')
 
     def _get_fileHeaderMapping(self):
diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 838c5fd..fb0ebc9 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -213,6 +213,9 @@ class Yw7File(File):
         except:
             if backedUp:
                 os.replace(f'{self.filePath}.bak', self.filePath)
+            elif os.path.isfile(self.filePath):
+                # Do not leave an incomplete file.
+                os.remove(self.filePath)
             raise
 
     def _build_element_tree(self):
@@ -1715,6 +1718,9 @@ class Yw7File(File):
         except:
             if backedUp:
                 os.replace(f'{ywProject.filePath}.bak', ywProject.filePath)
+            elif os.path.isfile(ywProject.filePath):
+                # Do not leave an incomplete file.
+                os.remove(ywProject.filePath)
             raise Error(f'{_("Cannot write file")}: "{norm_path(ywProject.filePath)}".')
         return backedUp
 
-- 
2.43.0


From 493a8600939de9b65461326a77ed360b413bdab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 14/83] fix: write well-formed metadata and styles into ODF
 packages

---
 src/pywriter/odf/odf_file.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index d543ade..bd2edc1 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -12,6 +12,7 @@ import tempfile
 from shutil import rmtree
 from datetime import datetime
 from string import Template
+from xml.sax.saxutils import escape
 from pywriter.pywriter_globals import *
 from pywriter.file.file_export import FileExport
 
@@ -143,8 +144,8 @@ class OdfFile(FileExport):
         #--- Generate styles.xml.
         self.novel.check_locale()
         localeMapping = dict(
-            Language=self.novel.languageCode,
-            Country=self.novel.countryCode,
+            Language=escape(self.novel.languageCode, {'"': '&quot;'}),
+            Country=escape(self.novel.countryCode, {'"': '&quot;'}),
             )
         template = Template(self._STYLES_XML)
         text = template.safe_substitute(localeMapping)
@@ -156,9 +157,9 @@ class OdfFile(FileExport):
 
         #--- Generate meta.xml with actual document metadata.
         metaMapping = dict(
-            Author=self.novel.authorName,
-            Title=self.novel.title,
-            Summary=f'<![CDATA[{self.novel.desc}]]>',
+            Author=escape(self.novel.authorName or ''),
+            Title=escape(self.novel.title or ''),
+            Summary=escape(self.novel.desc or ''),
             Datetime=datetime.today().replace(microsecond=0).isoformat(),
         )
         template = Template(self._META_XML)
-- 
2.43.0


From 8bbb605ecdb948edd1420f088d1bc312cd22bd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 15/83] fix: escape all project values inserted into documents

---
 src/pywriter/file/file_export.py       | 24 ++++++++++++------------
 src/pywriter/odt_w/odt_w_characters.py |  4 ++--
 src/pywriter/odt_w/odt_w_items.py      |  2 +-
 src/pywriter/odt_w/odt_w_locations.py  |  2 +-
 src/pywriter/odt_w/odt_w_xref.py       |  2 +-
 5 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/pywriter/file/file_export.py b/src/pywriter/file/file_export.py
index f4582cd..a7b9e61 100644
--- a/src/pywriter/file/file_export.py
+++ b/src/pywriter/file/file_export.py
@@ -273,7 +273,7 @@ class FileExport(File):
             Title=self._convert_from_yw(self.novel.characters[crId].title, True),
             Desc=self._convert_from_yw(self.novel.characters[crId].desc),
             Tags=self._convert_from_yw(tags),
-            Image=self.novel.characters[crId].image,
+            Image=self._convert_from_yw(self.novel.characters[crId].image, True),
             AKA=self._convert_from_yw(self.novel.characters[crId].aka, True),
             Notes=self._convert_from_yw(self.novel.characters[crId].notes),
             Bio=self._convert_from_yw(self.novel.characters[crId].bio),
@@ -336,7 +336,7 @@ class FileExport(File):
             Title=self._convert_from_yw(self.novel.items[itId].title, True),
             Desc=self._convert_from_yw(self.novel.items[itId].desc),
             Tags=self._convert_from_yw(tags, True),
-            Image=self.novel.items[itId].image,
+            Image=self._convert_from_yw(self.novel.items[itId].image, True),
             AKA=self._convert_from_yw(self.novel.items[itId].aka, True),
             ProjectName=self._convert_from_yw(self.projectName, True),
             ProjectPath=self.projectPath,
@@ -380,7 +380,7 @@ class FileExport(File):
             Title=self._convert_from_yw(self.novel.locations[lcId].title, True),
             Desc=self._convert_from_yw(self.novel.locations[lcId].desc),
             Tags=self._convert_from_yw(tags, True),
-            Image=self.novel.locations[lcId].image,
+            Image=self._convert_from_yw(self.novel.locations[lcId].image, True),
             AKA=self._convert_from_yw(self.novel.locations[lcId].aka, True),
             ProjectName=self._convert_from_yw(self.projectName, True),
             ProjectPath=self.projectPath,
@@ -520,10 +520,10 @@ class FileExport(File):
             FieldTitle2=self._convert_from_yw(self.novel.fieldTitle2, True),
             FieldTitle3=self._convert_from_yw(self.novel.fieldTitle3, True),
             FieldTitle4=self._convert_from_yw(self.novel.fieldTitle4, True),
-            Field1=self.novel.scenes[scId].field1,
-            Field2=self.novel.scenes[scId].field2,
-            Field3=self.novel.scenes[scId].field3,
-            Field4=self.novel.scenes[scId].field4,
+            Field1=self._convert_from_yw(self.novel.scenes[scId].field1, True),
+            Field2=self._convert_from_yw(self.novel.scenes[scId].field2, True),
+            Field3=self._convert_from_yw(self.novel.scenes[scId].field3, True),
+            Field4=self._convert_from_yw(self.novel.scenes[scId].field4, True),
             Date=scDate,
             Time=scTime,
             Day=scDay,
@@ -537,11 +537,11 @@ class FileExport(File):
             Conflict=self._convert_from_yw(self.novel.scenes[scId].conflict),
             Outcome=self._convert_from_yw(self.novel.scenes[scId].outcome),
             Tags=self._convert_from_yw(tags, True),
-            Image=self.novel.scenes[scId].image,
-            Characters=sceneChars,
-            Viewpoint=viewpointChar,
-            Locations=sceneLocs,
-            Items=sceneItems,
+            Image=self._convert_from_yw(self.novel.scenes[scId].image, True),
+            Characters=self._convert_from_yw(sceneChars, True),
+            Viewpoint=self._convert_from_yw(viewpointChar, True),
+            Locations=self._convert_from_yw(sceneLocs, True),
+            Items=self._convert_from_yw(sceneItems, True),
             Notes=self._convert_from_yw(self.novel.scenes[scId].notes),
             ProjectName=self._convert_from_yw(self.projectName, True),
             ProjectPath=self.projectPath,
diff --git a/src/pywriter/odt_w/odt_w_characters.py b/src/pywriter/odt_w/odt_w_characters.py
index 82209c0..d609448 100644
--- a/src/pywriter/odt_w/odt_w_characters.py
+++ b/src/pywriter/odt_w/odt_w_characters.py
@@ -54,7 +54,7 @@ class OdtWCharacters(OdtWriter):
         """
         characterMapping = OdtWriter._get_characterMapping(self, crId)
         if self.novel.characters[crId].aka:
-            characterMapping['AKA'] = f' ("{self.novel.characters[crId].aka}")'
+            characterMapping['AKA'] = f' ("{characterMapping["AKA"]}")'
         if self.novel.characters[crId].fullName:
-            characterMapping['FullName'] = f'/{self.novel.characters[crId].fullName}'
+            characterMapping['FullName'] = f'/{characterMapping["FullName"]}'
         return characterMapping
diff --git a/src/pywriter/odt_w/odt_w_items.py b/src/pywriter/odt_w/odt_w_items.py
index a05d86b..d6c5b29 100644
--- a/src/pywriter/odt_w/odt_w_items.py
+++ b/src/pywriter/odt_w/odt_w_items.py
@@ -39,5 +39,5 @@ class OdtWItems(OdtWriter):
         """
         itemMapping = super()._get_itemMapping(itId)
         if self.novel.items[itId].aka:
-            itemMapping['AKA'] = f' ("{self.novel.items[itId].aka}")'
+            itemMapping['AKA'] = f' ("{itemMapping["AKA"]}")'
         return itemMapping
diff --git a/src/pywriter/odt_w/odt_w_locations.py b/src/pywriter/odt_w/odt_w_locations.py
index 33c8b19..a0f9da5 100644
--- a/src/pywriter/odt_w/odt_w_locations.py
+++ b/src/pywriter/odt_w/odt_w_locations.py
@@ -39,5 +39,5 @@ class OdtWLocations(OdtWriter):
         """
         locationMapping = super()._get_locationMapping(lcId)
         if self.novel.locations[lcId].aka:
-            locationMapping['AKA'] = f' ("{self.novel.locations[lcId].aka}")'
+            locationMapping['AKA'] = f' ("{locationMapping["AKA"]}")'
         return locationMapping
diff --git a/src/pywriter/odt_w/odt_w_xref.py b/src/pywriter/odt_w/odt_w_xref.py
index 5a7bf14..b73c613 100644
--- a/src/pywriter/odt_w/odt_w_xref.py
+++ b/src/pywriter/odt_w/odt_w_xref.py
@@ -213,7 +213,7 @@ $SceneNumber (Ch $Chapter) $Title (ToDo)
             tag: str -- a single scene tag.
         """
         tagMapping = dict(
-            Tag=tag,
+            Tag=self._convert_from_yw(tag, True),
         )
         return tagMapping
 
-- 
2.43.0


From ec3df830e51fd3bfe12e4848efc2884088bb9326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 16/83] fix: leave unpaired comment marks alone, and escape the
 author of comments

---
 src/pywriter/odt_w/odt_w_export.py    | 51 ++++++++++++++++++---------
 src/pywriter/odt_w/odt_w_formatted.py | 20 +++++++++--
 src/pywriter/odt_w/odt_w_proof.py     |  3 +-
 3 files changed, 54 insertions(+), 20 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_export.py b/src/pywriter/odt_w/odt_w_export.py
index 80efacd..581e361 100644
--- a/src/pywriter/odt_w/odt_w_export.py
+++ b/src/pywriter/odt_w/odt_w_export.py
@@ -77,7 +77,15 @@ class OdtWExport(OdtWFormatted):
                 ('[/b]', '</text:span>'),
                 ]
 
-    def _get_text(self):
+    def _convert_comments(self, text):
+        """Leave the comments to _convert_notes().
+        
+        Overrides the superclass method.
+        """
+        return text
+
+    def _convert_notes(self, text):
+        """Return text with the comments converted to annotations, footnotes, and endnotes."""
 
         def replace_note(match):
             noteType = match.group(1)
@@ -100,19 +108,30 @@ class OdtWExport(OdtWFormatted):
                     f'text:label="{noteLabel}">*</text:note-citation><text:note-body>'
                     f'<text:p text:style-name="{noteStyle}">{text}</text:p></text:note-body></text:note>')
 
-        text = super()._get_text()
-
-        #--- Convert comments, footnotes, and endnotes.
-        # This is done once for the entire document because of the document-wide note numbering.
-        if text.find('/*') > 0:
-            text = text.replace('\r', '@r@').replace('\n', '@n@')
-            self._noteCounter = 0
-            self._noteNumber = 0
-            simpleComment = (f'<office:annotation><dc:creator>{self.novel.authorName}'
-                             '</dc:creator><text:p>\\1</text:p></office:annotation>'
-                             )
-            text = re.sub(r'\/\* *@([ef]n\**) (.*?)\*\/', replace_note, text)
-            text = re.sub(r'\/\*(.*?)\*\/', simpleComment, text)
-            text = text.replace(r'@r@', '\r').replace('@n@', '\n')
-        return text
+        text = re.sub(r'\/\* *@([ef]n\**) (.*?)\*\/', replace_note, text, flags=re.DOTALL)
+        return super()._convert_comments(text)
+
+    def _get_sceneMapping(self, scId, sceneNumber, wordsTotal, lettersTotal):
+        """Return a mapping dictionary for a scene section.
+        
+        Positional arguments:
+            scId: str -- scene ID.
+            sceneNumber: int -- scene number to be displayed.
+            wordsTotal: int -- accumulated wordcount.
+            lettersTotal: int -- accumulated lettercount.
+        
+        Extends the superclass method.
+        """
+        sceneMapping = super()._get_sceneMapping(scId, sceneNumber, wordsTotal, lettersTotal)
+        sceneMapping['SceneContent'] = self._convert_notes(sceneMapping['SceneContent'])
+        return sceneMapping
+
+    def _get_text(self):
+        """Reset the document-wide note numbering before processing the scenes.
+        
+        Extends the superclass method.
+        """
+        self._noteCounter = 0
+        self._noteNumber = 0
+        return super()._get_text()
 
diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index eed9e54..d8cfd4c 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -104,10 +104,28 @@ class OdtWFormatted(OdtWriter):
             # Remove highlighting, alignment,
             # strikethrough, and underline tags.
             text = re.sub(r'\[\/*[h|c|r|s|u]\d*\]', '', text)
+            if not quick:
+                text = self._convert_comments(text)
         else:
             text = ''
         return text
 
+    def _convert_comments(self, text):
+        """Return text with the yWriter comments converted to annotations.
+        
+        Positional arguments:
+            text -- string to convert.
+        
+        Comment marks without counterpart are left as they are.
+        """
+        creator = super()._convert_from_yw(self.novel.authorName, True)
+
+        def get_annotation(match):
+            return (f'<office:annotation><dc:creator>{creator}</dc:creator>'
+                    f'<text:p>{match.group(1)}</text:p></office:annotation>')
+
+        return re.sub(r'\/\*(.*?)\*\/', get_annotation, text, flags=re.DOTALL)
+
     def _get_fileHeaderMapping(self):
         """Return a mapping dictionary for the project section.
         
@@ -148,8 +166,6 @@ class OdtWFormatted(OdtWriter):
                 ('[/i]', '</text:span>'),
                 ('[b]', '<text:span text:style-name="Strong_20_Emphasis">'),
                 ('[/b]', '</text:span>'),
-                ('/*', f'<office:annotation><dc:creator>{self.novel.authorName}</dc:creator><text:p>'),
-                ('*/', '</text:p></office:annotation>'),
                 ]
 
     def _get_text(self):
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 9e95351..3cfbad8 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -64,8 +64,6 @@ class OdtWProof(OdtWFormatted):
                 ('\r', '\n'),
                 ('[/i]', '</text:span>'),
                 ('[/b]', '</text:span>'),
-                ('/*', f'<office:annotation><dc:creator>{self.novel.authorName}</dc:creator><text:p>'),
-                ('*/', '</text:p></office:annotation>'),
             ])
             i = 0
             for i, language in enumerate(self.novel.languages, 1):
@@ -111,6 +109,7 @@ class OdtWProof(OdtWFormatted):
             # Remove highlighting, alignment,
             # strikethrough, and underline tags.
             text = re.sub(r'\[\/*[h|c|r|s|u]\d*\]', '', text)
+            text = self._convert_comments(text)
         else:
             text = ''
         return text
-- 
2.43.0


From eeea790202810c2a572eb48ce398b3d199764b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 17/83] fix: keep quotation marks and text when formatting
 continues in a quotation

---
 src/pywriter/odt_w/odt_w_formatted.py | 4 ++--
 src/pywriter/odt_w/odt_w_proof.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index d8cfd4c..9c86085 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -83,8 +83,8 @@ class OdtWFormatted(OdtWriter):
                 for line in lines:
                     for tag in tags:
                         if isOpen[tag]:
-                            if line.startswith('&gt; '):
-                                line = f"&gt; {opening[tag]}{line.lstrip('&gt; ')}"
+                            if line.startswith('> '):
+                                line = f"> {opening[tag]}{line[2:]}"
                             else:
                                 line = f'{opening[tag]}{line}'
                             isOpen[tag] = False
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 3cfbad8..7b45263 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -88,8 +88,8 @@ class OdtWProof(OdtWFormatted):
             for line in lines:
                 for tag in tags:
                     if isOpen[tag]:
-                        if line.startswith('&gt; '):
-                            line = f"&gt; {opening[tag]}{line.lstrip('&gt; ')}"
+                        if line.startswith('> '):
+                            line = f"> {opening[tag]}{line[2:]}"
                         else:
                             line = f'{opening[tag]}{line}'
                         isOpen[tag] = False
-- 
2.43.0


From da9737a7e0e858e953869dd25b4246a28debfa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 18/83] fix: list all linked elements if one of them has no
 title

---
 src/pywriter/file/file_export.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/file/file_export.py b/src/pywriter/file/file_export.py
index a7b9e61..045a844 100644
--- a/src/pywriter/file/file_export.py
+++ b/src/pywriter/file/file_export.py
@@ -432,7 +432,7 @@ class FileExport(File):
             # viepoint characters
             sChList = []
             for crId in self.novel.scenes[scId].characters:
-                sChList.append(self.novel.characters[crId].title)
+                sChList.append(self.novel.characters[crId].title or '')
             sceneChars = list_to_string(sChList, divider=self._DIVIDER)
             viewpointChar = sChList[0]
         except:
@@ -443,7 +443,7 @@ class FileExport(File):
         if self.novel.scenes[scId].locations is not None:
             sLcList = []
             for lcId in self.novel.scenes[scId].locations:
-                sLcList.append(self.novel.locations[lcId].title)
+                sLcList.append(self.novel.locations[lcId].title or '')
             sceneLocs = list_to_string(sLcList, divider=self._DIVIDER)
         else:
             sceneLocs = ''
@@ -452,7 +452,7 @@ class FileExport(File):
         if self.novel.scenes[scId].items is not None:
             sItList = []
             for itId in self.novel.scenes[scId].items:
-                sItList.append(self.novel.items[itId].title)
+                sItList.append(self.novel.items[itId].title or '')
             sceneItems = list_to_string(sItList, divider=self._DIVIDER)
         else:
             sceneItems = ''
-- 
2.43.0


From 5a32c90b8108b395cc86a3158a5a2c100e710418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 19/83] fix: export scenes without a valid status

---
 src/pywriter/file/file_export.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/file/file_export.py b/src/pywriter/file/file_export.py
index 045a844..07b7994 100644
--- a/src/pywriter/file/file_export.py
+++ b/src/pywriter/file/file_export.py
@@ -463,6 +463,12 @@ class FileExport(File):
         else:
             reactionScene = Scene.ACTION_MARKER
 
+        #--- Status, if any.
+        try:
+            status = Scene.STATUS[self.novel.scenes[scId].status] or ''
+        except(IndexError, TypeError):
+            status = ''
+
         #--- Date or day.
         if self.novel.scenes[scId].date is not None and self.novel.scenes[scId].date != Scene.NULL_DATE:
             scDay = ''
@@ -514,7 +520,7 @@ class FileExport(File):
             WordsTotal=wordsTotal,
             LetterCount=str(self.novel.scenes[scId].letterCount),
             LettersTotal=lettersTotal,
-            Status=Scene.STATUS[self.novel.scenes[scId].status],
+            Status=status,
             SceneContent=self._convert_from_yw(self.novel.scenes[scId].sceneContent),
             FieldTitle1=self._convert_from_yw(self.novel.fieldTitle1, True),
             FieldTitle2=self._convert_from_yw(self.novel.fieldTitle2, True),
-- 
2.43.0


From ad9388638a6571cff03fd5d3c50e61b375070ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 20/83] fix: keep blanks between formatted words when reading
 documents

Data is delivered in chunks, divided by spans. Stripping the chunks glued
the words of descriptions, dropping blank chunks did so in scene texts.
---
 src/pywriter/odt_r/odt_r_chapterdesc.py | 2 +-
 src/pywriter/odt_r/odt_r_characters.py  | 2 +-
 src/pywriter/odt_r/odt_r_items.py       | 2 +-
 src/pywriter/odt_r/odt_r_locations.py   | 2 +-
 src/pywriter/odt_r/odt_r_manuscript.py  | 3 +--
 5 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_chapterdesc.py b/src/pywriter/odt_r/odt_r_chapterdesc.py
index c9e5133..fc893ca 100644
--- a/src/pywriter/odt_r/odt_r_chapterdesc.py
+++ b/src/pywriter/odt_r/odt_r_chapterdesc.py
@@ -49,4 +49,4 @@ class OdtRChapterDesc(OdtReader):
         Overrides the superclass method.
         """
         if self._chId is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
diff --git a/src/pywriter/odt_r/odt_r_characters.py b/src/pywriter/odt_r/odt_r_characters.py
index 93106cd..6e5972f 100644
--- a/src/pywriter/odt_r/odt_r_characters.py
+++ b/src/pywriter/odt_r/odt_r_characters.py
@@ -46,7 +46,7 @@ class OdtRCharacters(OdtReader):
         Overrides the superclass method.
         """
         if self._section is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
 
     def handle_endtag(self, tag):
         """Recognize the end of the character section and save data.
diff --git a/src/pywriter/odt_r/odt_r_items.py b/src/pywriter/odt_r/odt_r_items.py
index d927bef..b3633ea 100644
--- a/src/pywriter/odt_r/odt_r_items.py
+++ b/src/pywriter/odt_r/odt_r_items.py
@@ -45,7 +45,7 @@ class OdtRItems(OdtReader):
         Overrides the superclass method.
         """
         if self._itId is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
 
     def handle_endtag(self, tag):
         """Recognize the end of the item section and save data.
diff --git a/src/pywriter/odt_r/odt_r_locations.py b/src/pywriter/odt_r/odt_r_locations.py
index e365407..6ac6cc2 100644
--- a/src/pywriter/odt_r/odt_r_locations.py
+++ b/src/pywriter/odt_r/odt_r_locations.py
@@ -45,7 +45,7 @@ class OdtRLocations(OdtReader):
         Overrides the superclass method.
         """
         if self._lcId is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
 
     def handle_endtag(self, tag):
         """Recognize the end of the location section and save data.
diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index 6fb8089..921ecf2 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -57,8 +57,7 @@ class OdtRManuscript(OdtRFormatted):
         if self._skip_data:
             self._skip_data = False
         elif self._scId is not None:
-            if not data.isspace():
-                self._lines.append(data)
+            self._lines.append(data)
         elif self._chId is not None:
             if self.novel.chapters[self._chId].title is None:
                 self.novel.chapters[self._chId].title = data.strip()
-- 
2.43.0


From 6d1b9d1a225c2674f1181593486386fd036d6c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 21/83] fix: keep a comment at the beginning of a scene
 description

Only comments marked with tildes are scene titles.
---
 src/pywriter/odt_r/odt_r_scenedesc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_r_scenedesc.py b/src/pywriter/odt_r/odt_r_scenedesc.py
index 888c565..66190b2 100644
--- a/src/pywriter/odt_r/odt_r_scenedesc.py
+++ b/src/pywriter/odt_r/odt_r_scenedesc.py
@@ -52,7 +52,7 @@ class OdtRSceneDesc(OdtReader):
                         if self._SC_TITLE_BRACKET in scTitle:
                             self.novel.scenes[self._scId].title = scTitle.split(
                                 self._SC_TITLE_BRACKET)[1].strip()
-                        text = scContent
+                            text = scContent
                     except:
                         pass
                 self.novel.scenes[self._scId].desc = text.rstrip()
-- 
2.43.0


From 8b83dfc6c1e5fc8479956ab7a471281ac598ffa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 22/83] fix: read formatted spans, comments and blanks of
 documents correctly

A span without formatting closed the wrong markup tag, styles being both
bold and italic were not closed, formatting and blanks within comments
leaked into the text, only the first paragraph of a comment was kept, and
words separated by tabs or line breaks were glued.
---
 src/pywriter/odt_r/odt_parser.py | 74 ++++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 23 deletions(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index bd4bead..aa46e06 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -33,6 +33,7 @@ class OdtParser(sax.ContentHandler):
         self._heading = None
         self._paragraph = False
         self._commentParagraphCount = None
+        self._commentParagraph = False
         self._blockquote = False
         self._list = False
         self._span = []
@@ -108,7 +109,7 @@ class OdtParser(sax.ContentHandler):
         Overrides the xml.sax.ContentHandler method             
         """
         if self._commentParagraphCount is not None:
-            if self._commentParagraphCount == 1:
+            if self._commentParagraph:
                 self._comment = f'{self._comment}{content}'
         elif self._paragraph:
             self._client.handle_data(content)
@@ -121,9 +122,11 @@ class OdtParser(sax.ContentHandler):
         Overrides the xml.sax.ContentHandler method     
         """
         if name == 'text:p':
-            if self._commentParagraphCount is None:
+            if self._commentParagraphCount is not None:
+                self._commentParagraph = False
+            else:
                 while self._span:
-                    self._client.handle_endtag(self._span.pop())
+                    self._close_span()
                 if self._blockquote:
                     self._client.handle_endtag('blockquote')
                     self._blockquote = False
@@ -134,8 +137,8 @@ class OdtParser(sax.ContentHandler):
                     self._client.handle_endtag('p')
                 self._paragraph = False
         elif name == 'text:span':
-            if self._span:
-                self._client.handle_endtag(self._span.pop())
+            if self._commentParagraphCount is None and self._span:
+                self._close_span()
         elif name == 'text:section':
             self._client.handle_endtag('div')
         elif name == 'office:annotation':
@@ -164,8 +167,13 @@ class OdtParser(sax.ContentHandler):
             if style in self._languageTags:
                 param = [('lang', self._languageTags[style])]
             if self._commentParagraphCount is not None:
+                if self._commentParagraphCount > 0:
+                    self._comment = f'{self._comment}\n'
                 self._commentParagraphCount += 1
-            elif style in self._blockquoteTags:
+                self._commentParagraph = True
+                return
+
+            if style in self._blockquoteTags:
                 self._client.handle_starttag('blockquote', param)
                 self._paragraph = True
                 self._blockquote = True
@@ -181,22 +189,13 @@ class OdtParser(sax.ContentHandler):
             else:
                 self._client.handle_starttag('p', param)
                 self._paragraph = True
-            if style in self._emTags:
-                self._span.append('em')
-                self._client.handle_starttag('em', [()])
-            if style in self._strongTags:
-                self._span.append('strong')
-                self._client.handle_starttag('strong', [()])
+            self._open_span(style)
         elif name == 'text:span':
-            if style in self._emTags:
-                self._span.append('em')
-                self._client.handle_starttag('em', [()])
-            if style in self._strongTags:
-                self._span.append('strong')
-                self._client.handle_starttag('strong', [()])
-            if style in self._languageTags:
-                self._span.append('lang')
-                self._client.handle_starttag('lang', [('lang', self._languageTags[style])])
+            if self._commentParagraphCount is None:
+                self._open_span(style)
+                if style in self._languageTags:
+                    self._span[-1].append('lang')
+                    self._client.handle_starttag('lang', [('lang', self._languageTags[style])])
         elif name == 'text:section':
             sectionId = xmlAttributes['text:name']
             self._client.handle_starttag('div', [('id', sectionId)])
@@ -231,6 +230,35 @@ class OdtParser(sax.ContentHandler):
                 else:
                     locale = lngCode
                 self._languageTags[self._style] = locale
-        elif name == 'text:s':
-            self._client.handle_starttag('s', [()])
+        elif name in ('text:s', 'text:tab', 'text:line-break'):
+            try:
+                count = int(xmlAttributes.get('text:c', 1))
+            except ValueError:
+                count = 1
+            if self._commentParagraphCount is not None:
+                if self._commentParagraph:
+                    self._comment = f'{self._comment}{" " * count}'
+            else:
+                for __ in range(count):
+                    self._client.handle_starttag('s', [()])
+
+    def _close_span(self):
+        """Signal the end of the tags belonging to the innermost formatted range."""
+        for tag in reversed(self._span.pop()):
+            self._client.handle_endtag(tag)
+
+    def _open_span(self, style):
+        """Signal the beginning of the tags belonging to a formatted range.
+        
+        Positional arguments:
+            style: str -- name of the range's style.
+        """
+        tags = []
+        if style in self._emTags:
+            tags.append('em')
+        if style in self._strongTags:
+            tags.append('strong')
+        self._span.append(tags)
+        for tag in tags:
+            self._client.handle_starttag(tag, [()])
 
-- 
2.43.0


From 368522fea04a61f43d5c25c7db732d09d1c1f529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 23/83] fix: do not lose the rest of a paragraph after a
 footnote or endnote

Notes are read as comments with the marks that are turned into notes on
export.
---
 src/pywriter/odt_r/odt_parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index aa46e06..9fd7800 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -141,7 +141,7 @@ class OdtParser(sax.ContentHandler):
                 self._close_span()
         elif name == 'text:section':
             self._client.handle_endtag('div')
-        elif name == 'office:annotation':
+        elif name in ('office:annotation', 'text:note'):
             self._client.handle_comment(self._comment)
             self._commentParagraphCount = None
         elif name == 'text:h':
@@ -202,6 +202,12 @@ class OdtParser(sax.ContentHandler):
         elif name == 'office:annotation':
             self._commentParagraphCount = 0
             self._comment = ''
+        elif name == 'text:note':
+            self._commentParagraphCount = 0
+            if xmlAttributes.get('text:note-class', None) == 'endnote':
+                self._comment = '@en '
+            else:
+                self._comment = '@fn '
         elif name == 'text:h':
             try:
                 self._heading = f'h{xmlAttributes["text:outline-level"]}'
-- 
2.43.0


From 443db536e14df569372baa6fc0d21f88de3481bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:14 +0000
Subject: [PATCH 24/83] fix: do not lose quotations and list items at scene
 beginnings when importing

---
 src/pywriter/odt_r/odt_r_import.py  | 3 ++-
 src/pywriter/odt_r/odt_r_outline.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_import.py b/src/pywriter/odt_r/odt_r_import.py
index bd2f7a0..3c80697 100644
--- a/src/pywriter/odt_r/odt_r_import.py
+++ b/src/pywriter/odt_r/odt_r_import.py
@@ -131,7 +131,7 @@ class OdtRImport(OdtRFormatted):
         
         Overrides the superclass method.
         """
-        if tag == 'p':
+        if tag in ('p', 'li', 'blockquote'):
             if self._scId is None and self._chId is not None:
                 self._lines = []
                 self._scCount += 1
@@ -141,6 +141,7 @@ class OdtRImport(OdtRFormatted):
                 self.novel.scenes[self._scId].status = 1
                 self.novel.scenes[self._scId].scType = 0
                 self.novel.scenes[self._scId].title = f'{_("Scene")} {self._scCount}'
+        if tag == 'p':
             try:
                 if attrs[0][0] == 'lang':
                     self._language = attrs[0][1]
diff --git a/src/pywriter/odt_r/odt_r_outline.py b/src/pywriter/odt_r/odt_r_outline.py
index 1ef2e6f..19cbf69 100644
--- a/src/pywriter/odt_r/odt_r_outline.py
+++ b/src/pywriter/odt_r/odt_r_outline.py
@@ -64,7 +64,7 @@ class OdtROutline(OdtReader):
         Overrides the superclass method.
         """
         text = ''.join(self._lines)
-        if tag == 'p':
+        if tag in ('p', 'blockquote'):
             text = f'{text.strip()}\n'
             self._lines = [text]
             if self._scId is not None:
-- 
2.43.0


From 25465164c5a88037e2ff7da14e175167f564dacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:28 +0000
Subject: [PATCH 25/83] fix: do not lose text when splitting scenes

A scene heading right after a chapter heading erased the preceding scene,
text after a second vertical bar was dropped, and a new part was not
reported as a structural change.
---
 src/pywriter/model/splitter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/model/splitter.py b/src/pywriter/model/splitter.py
index 755c319..4dbf26f 100644
--- a/src/pywriter/model/splitter.py
+++ b/src/pywriter/model/splitter.py
@@ -97,7 +97,7 @@ class Splitter:
                 parent.outcome = f'{WARNING}{parent.outcome}'
 
             # Reset the parent's status to Draft, if not Outline.
-            if parent.status > 2:
+            if parent.status is not None and parent.status > 2:
                 parent.status = 2
             newScene.status = parent.status
             newScene.scType = parent.scType
@@ -129,7 +129,7 @@ class Splitter:
 
                 # Search scene content for dividers.
                 for line in lines:
-                    heading = line.strip('# ').split(self.DESC_SEPARATOR)
+                    heading = line.strip('# ').split(self.DESC_SEPARATOR, maxsplit=1)
                     title = heading[0]
                     try:
                         desc = heading[1]
@@ -137,7 +137,8 @@ class Splitter:
                         desc = ''
                     if line.startswith(self.SCENE_SEPARATOR):
                         # Split the scene.
-                        file.novel.scenes[sceneId].sceneContent = '\n'.join(newLines)
+                        if inScene:
+                            file.novel.scenes[sceneId].sceneContent = '\n'.join(newLines)
                         newLines = []
                         sceneSplitCount += 1
                         sceneId = create_id(file.novel.scenes)
@@ -174,6 +175,7 @@ class Splitter:
                             title = _('New Part')
                         create_chapter(chapterId, title, desc, 1)
                         srtChapters.append(chapterId)
+                        scenesSplit = True
                     elif not inScene:
                         # Append a scene without heading to a new chapter or part.
                         newLines.append(line)
-- 
2.43.0


From 93923fd3226e32bda756ef83db215f2e65cb974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 26/83] fix: determine the languages from the current texts,
 keep tags without country

Language tags were ignored if the project already had language variables,
or if a document was imported before. Tags without a country code were
changed by documents, although the reader provides for them.
---
 src/pywriter/odt_r/odt_parser.py      |  2 +-
 src/pywriter/odt_w/odt_w_formatted.py | 23 ++++++++++++++++-------
 src/pywriter/odt_w/odt_w_proof.py     |  6 +-----
 src/pywriter/yw/yw7_file.py           |  3 +--
 4 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 9fd7800..4a8bd00 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -230,7 +230,7 @@ class OdtParser(sax.ContentHandler):
                 self._strongTags.append(self._style)
             if xmlAttributes.get('fo:language', False):
                 lngCode = xmlAttributes['fo:language']
-                ctrCode = xmlAttributes['fo:country']
+                ctrCode = xmlAttributes.get('fo:country', 'none')
                 if ctrCode != 'none':
                     locale = f'{lngCode}-{ctrCode}'
                 else:
diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 9c86085..56e5207 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -38,8 +38,7 @@ class OdtWFormatted(OdtWriter):
         
         Extends the superclass method.
         """
-        if self.novel.languages is None:
-            self.novel.get_languages()
+        self.novel.get_languages()
         return super().write()
 
     def _convert_from_yw(self, text, quick=False):
@@ -137,11 +136,7 @@ class OdtWFormatted(OdtWriter):
         if self.novel.languages:
             lines = ['<office:automatic-styles>']
             for i, language in enumerate(self.novel.languages, 1):
-                try:
-                    lngCode, ctrCode = language.split('-')
-                except:
-                    lngCode = 'zxx'
-                    ctrCode = 'none'
+                lngCode, ctrCode = self._get_locale(language)
                 lines.append((f'  <style:style style:name="T{i}" style:family="text">\n'
                               f'   <style:text-properties fo:language="{lngCode}" fo:country="{ctrCode}" '
                               f'style:language-asian="{lngCode}" style:country-asian="{ctrCode}" '
@@ -156,6 +151,20 @@ class OdtWFormatted(OdtWriter):
         projectTemplateMapping['ContentHeader'] = template.safe_substitute(styleMapping)
         return projectTemplateMapping
 
+    def _get_locale(self, language):
+        """Return the language code and the country code of a language tag.
+        
+        Positional arguments:
+            language: str -- language code found in a tag, with or without a country code.
+        
+        If the language doesn't look plausible, return "no language".
+        """
+        m = re.fullmatch(r'([A-Za-z]+)(-([A-Za-z0-9]+))?', language)
+        if m is None:
+            return 'zxx', 'none'
+
+        return m.group(1), m.group(3) or 'none'
+
     def _get_replacements(self):
         return [
                 ('\n\n', ('</text:p>\r<text:p text:style-name="First_20_line_20_indent" />\r'
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 7b45263..6ef9c69 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -125,11 +125,7 @@ class OdtWProof(OdtWFormatted):
         i = 0
         lines = ['<office:automatic-styles>']
         for i, language in enumerate(self.novel.languages, 1):
-            try:
-                lngCode, ctrCode = language.split('-')
-            except:
-                lngCode = 'zxx'
-                ctrCode = 'none'
+            lngCode, ctrCode = self._get_locale(language)
             lines.append(f'''  <style:style style:name="T{i}" style:family="text">
    <style:text-properties fo:language="{lngCode}" fo:country="{ctrCode}" style:language-asian="{lngCode}" style:country-asian="{ctrCode}" style:language-complex="{lngCode}" style:country-complex="{ctrCode}"/>
   </style:style>''')
diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index fb0ebc9..b1a9e60 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -193,8 +193,7 @@ class Yw7File(File):
         if self.is_locked():
             raise Error(f'{_("yWriter seems to be open. Please close first")}.')
 
-        if self.novel.languages is None:
-            self.novel.get_languages()
+        self.novel.get_languages()
 
         #--- Get custom instance variables.
         for scId in self.novel.scenes:
-- 
2.43.0


From b262f8fed6927ba66c357b82131f7686aeaebae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 27/83] fix: reset the custom fields of project notes without
 crashing

---
 src/pywriter/yw/yw7_purge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/yw/yw7_purge.py b/src/pywriter/yw/yw7_purge.py
index 68119f5..c983e21 100644
--- a/src/pywriter/yw/yw7_purge.py
+++ b/src/pywriter/yw/yw7_purge.py
@@ -52,8 +52,8 @@ def reset_custom_variables(prjFile):
                 hasChanged = True
     for pnId in prjFile.novel.projectNotes:
         for field in prjFile.PNT_KWVAR:
-            if prjFile.novel.projectnotes[pnId].kwVar.get(field, None):
-                prjFile.novel.projectnotes[pnId].kwVar[field] = ''
+            if prjFile.novel.projectNotes[pnId].kwVar.get(field, None):
+                prjFile.novel.projectNotes[pnId].kwVar[field] = ''
                 hasChanged = True
     return hasChanged
 
-- 
2.43.0


From c887a5fd38589a49b13e0b7e7395e434f4a5e649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:41 +0000
Subject: [PATCH 28/83] fix: save scenes with a day, and a time that is empty
 or without seconds

---
 src/pywriter/yw/yw7_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index b1a9e60..2af5dd1 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -442,8 +442,8 @@ class Yw7File(File):
                             xmlScene.find('Day').text = prjScn.day
                         except(AttributeError):
                             ET.SubElement(xmlScene, 'Day').text = prjScn.day
-                    if prjScn.time is not None:
-                        hours, minutes, __ = prjScn.time.split(':')
+                    if prjScn.time:
+                        hours, minutes = prjScn.time.split(':')[:2]
                         try:
                             xmlScene.find('Hour').text = hours
                         except(AttributeError):
-- 
2.43.0


From 02cde9a20a949b8d0ac9e670e21f5f685bdb627d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 29/83] fix: report unsuitable source files when just exporting

---
 src/pywriter/converter/yw_cnv_ff.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/converter/yw_cnv_ff.py b/src/pywriter/converter/yw_cnv_ff.py
index 13b0418..56475f1 100644
--- a/src/pywriter/converter/yw_cnv_ff.py
+++ b/src/pywriter/converter/yw_cnv_ff.py
@@ -73,8 +73,12 @@ class YwCnvFf(YwCnvUi):
             # The source file is not a yWriter project.
             try:
                 source, __ = self.importSourceFactory.make_file_objects(sourcePath, **kwargs)
-            except Error:
+            except Error as ex:
                 # A new yWriter project might be required.
+                if self.newProjectFactory is None:
+                    self.ui.set_info_how(f'!{str(ex)}')
+                    return
+
                 try:
                     source, target = self.newProjectFactory.make_file_objects(sourcePath, **kwargs)
                 except Error as ex:
-- 
2.43.0


From cbca2619ab99035b1bfb9c0a451bf963a1e5abca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 30/83] fix: store settings with percent signs, keep options
 that can not be read

---
 src/pywriter/config/configuration.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/config/configuration.py b/src/pywriter/config/configuration.py
index 9d62a3b..12e3007 100644
--- a/src/pywriter/config/configuration.py
+++ b/src/pywriter/config/configuration.py
@@ -45,7 +45,7 @@ class Configuration:
             
         Settings and options that can not be read in, remain unchanged.
         """
-        config = ConfigParser()
+        config = ConfigParser(interpolation=None)
         config.read(iniFile, encoding='utf-8')
         if config.has_section(self._sLabel):
             section = config[self._sLabel]
@@ -56,7 +56,10 @@ class Configuration:
             section = config[self._oLabel]
             for option in self.options:
                 fallback = self.options[option]
-                self.options[option] = section.getboolean(option, fallback)
+                try:
+                    self.options[option] = section.getboolean(option, fallback)
+                except ValueError:
+                    self.options[option] = fallback
 
     def set(self, settings=None, options=None):
         """Set the entire configuration without writing the INI file.
@@ -76,7 +79,7 @@ class Configuration:
         Positional arguments:
             iniFile: str -- path configuration file path.
         """
-        config = ConfigParser()
+        config = ConfigParser(interpolation=None)
         if self.settings:
             config.add_section(self._sLabel)
             for settingId in self.settings:
-- 
2.43.0


From 22252ba8fd56334c7ea59d38bcc8e050c5b7f613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 31/83] fix: exclude comments with line breaks from the word
 count

---
 src/pywriter/model/scene.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/model/scene.py b/src/pywriter/model/scene.py
index 132252a..c979f0c 100644
--- a/src/pywriter/model/scene.py
+++ b/src/pywriter/model/scene.py
@@ -14,11 +14,11 @@ from pywriter.pywriter_globals import *
 ADDITIONAL_WORD_LIMITS = re.compile(r'--|—|–')
 # this is to be replaced by spaces, thus making dashes and dash replacements word limits
 
-NO_WORD_LIMITS = re.compile(r'\[.+?\]|\/\*.+?\*\/|-|^\>', re.MULTILINE)
+NO_WORD_LIMITS = re.compile(r'\[.+?\]|(?s:\/\*.+?\*\/)|-|^\>', re.MULTILINE)
 # this is to be replaced by empty strings, thus excluding markup and comments from
 # word counting, and making hyphens join words
 
-NON_LETTERS = re.compile(r'\[.+?\]|\/\*.+?\*\/|\n|\r')
+NON_LETTERS = re.compile(r'\[.+?\]|(?s:\/\*.+?\*\/)|\n|\r')
 # this is to be replaced by empty strings, thus excluding markup, comments, and linefeeds
 # from letter counting
 
-- 
2.43.0


From 7d304b4d4022351777d244c06b88594a2e3f2f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 32/83] fix: keep formatting that overlaps, or reaches across
 comments and paragraphs

---
 src/pywriter/odt_w/odt_w_formatted.py | 87 +++++++++++++++++++--------
 1 file changed, 62 insertions(+), 25 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 56e5207..a4e12af 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -70,31 +70,7 @@ class OdtWFormatted(OdtWriter):
                     odtReplacements.append((f'[/lang={language}]', '</text:span>'))
 
                 #--- Process markup reaching across linebreaks.
-                newlines = []
-                lines = text.split('\n')
-                isOpen = {}
-                opening = {}
-                closing = {}
-                for tag in tags:
-                    isOpen[tag] = False
-                    opening[tag] = f'[{tag}]'
-                    closing[tag] = f'[/{tag}]'
-                for line in lines:
-                    for tag in tags:
-                        if isOpen[tag]:
-                            if line.startswith('> '):
-                                line = f"> {opening[tag]}{line[2:]}"
-                            else:
-                                line = f'{opening[tag]}{line}'
-                            isOpen[tag] = False
-                        while line.count(opening[tag]) > line.count(closing[tag]):
-                            line = f'{line}{closing[tag]}'
-                            isOpen[tag] = True
-                        while line.count(closing[tag]) > line.count(opening[tag]):
-                            line = f'{opening[tag]}{line}'
-                        line = line.replace(f'{opening[tag]}{closing[tag]}', '')
-                    newlines.append(line)
-                text = '\n'.join(newlines).rstrip()
+                text = self._nest_markup(text, tags).rstrip()
 
             #--- Apply odt formating.
             for yw, od in odtReplacements:
@@ -125,6 +101,67 @@ class OdtWFormatted(OdtWriter):
 
         return re.sub(r'\/\*(.*?)\*\/', get_annotation, text, flags=re.DOTALL)
 
+    def _nest_markup(self, text, tags):
+        """Return text with properly nested formatting tags that don't reach across linebreaks and comment marks.
+        
+        Positional arguments:
+            text -- string to convert.
+            tags -- list of the formatting tags without brackets.
+        """
+
+        def open_tag(tag):
+            newText.append(f'[{tag}]')
+            openTags.append(tag)
+
+        def close_tag():
+            tag = openTags.pop()
+            if newText[-1] == f'[{tag}]':
+                # There is nothing to format.
+                newText.pop()
+            else:
+                newText.append(f'[/{tag}]')
+            return tag
+
+        tagList = '|'.join(re.escape(tag) for tag in tags)
+        tokens = re.split(rf'(/\*.*?\*/|\n(?:> )?|\[/?(?:{tagList})\])', text, flags=re.DOTALL)
+        # Tokens with an odd index are comments, linebreaks, or tags.
+        newText = ['']
+        openTags = []
+        lineStart = 1
+        for i, token in enumerate(tokens):
+            if i % 2 == 0:
+                if token:
+                    newText.append(token)
+            elif token.startswith('/*'):
+                newText.append(f'/*{self._nest_markup(token[2:-2], tags)}*/')
+            elif token.startswith('\n'):
+                suspended = []
+                while openTags:
+                    suspended.append(close_tag())
+                newText.append(token)
+                lineStart = len(newText)
+                while suspended:
+                    open_tag(suspended.pop())
+            elif token.startswith('[/'):
+                tag = token[2:-1]
+                if tag in openTags:
+                    # Close the tag, and reopen the tags nested in it.
+                    suspended = []
+                    while openTags[-1] != tag:
+                        suspended.append(close_tag())
+                    close_tag()
+                    while suspended:
+                        open_tag(suspended.pop())
+                elif not openTags:
+                    # The opening tag is missing.
+                    newText.insert(lineStart, f'[{tag}]')
+                    newText.append(f'[/{tag}]')
+            else:
+                open_tag(token[1:-1])
+        while openTags:
+            close_tag()
+        return ''.join(newText)
+
     def _get_fileHeaderMapping(self):
         """Return a mapping dictionary for the project section.
         
-- 
2.43.0


From 311e74c0d207f3b2413b578c035434de857d51ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 33/83] fix: declare the paragraph styles of footnotes and
 endnotes

---
 src/pywriter/odt_w/odt_writer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pywriter/odt_w/odt_writer.py b/src/pywriter/odt_w/odt_writer.py
index 3f1c39e..93ed31b 100644
--- a/src/pywriter/odt_w/odt_writer.py
+++ b/src/pywriter/odt_w/odt_writer.py
@@ -314,6 +314,14 @@ class OdtWriter(OdfFile):
    <style:paragraph-properties loext:contextual-spacing="false" fo:margin-top="0cm" fo:margin-bottom="0cm" style:page-number="auto"/>
    <style:text-properties fo:font-variant="normal" fo:text-transform="none" fo:letter-spacing="normal" fo:font-style="italic" fo:font-weight="normal"/>
   </style:style>
+  <style:style style:name="Footnote" style:family="paragraph" style:parent-style-name="Standard" style:class="extra">
+   <style:paragraph-properties fo:margin-left="0.499cm" fo:margin-right="0cm" fo:text-indent="-0.499cm" style:auto-text-indent="false" text:number-lines="false" text:line-number="0"/>
+   <style:text-properties fo:font-size="10pt"/>
+  </style:style>
+  <style:style style:name="Endnote" style:family="paragraph" style:parent-style-name="Standard" style:class="extra">
+   <style:paragraph-properties fo:margin-left="0.499cm" fo:margin-right="0cm" fo:text-indent="-0.499cm" style:auto-text-indent="false" text:number-lines="false" text:line-number="0"/>
+   <style:text-properties fo:font-size="10pt"/>
+  </style:style>
   <style:style style:name="Quotations" style:family="paragraph" style:parent-style-name="Text_20_body" style:class="html">
    <style:paragraph-properties fo:margin="100%" fo:margin-left="1cm" fo:margin-right="0cm" fo:margin-top="0cm" fo:margin-bottom="0cm" fo:text-indent="0cm" style:auto-text-indent="false"/>
    <style:text-properties style:font-name="Consolas"/>
-- 
2.43.0


From 7604da0b40fbb29a09cf0e1999a171b428062256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 34/83] fix: recognize quotations after a comment only at the
 paragraph start

---
 src/pywriter/odt_w/odt_w_formatted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index a4e12af..4eae081 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -233,7 +233,7 @@ class OdtWFormatted(OdtWriter):
                          )
             for quotMark in quotMarks:
                 text = text.replace(quotMark, '"Quotations">')
-            text = re.sub(r'"Text_20_body"\>(\<office\:annotation\>.+?\<\/office\:annotation\>)\&gt\; ',
+            text = re.sub(r'"Text_20_body"\>(\<office\:annotation\>(?:(?!\<\/office\:annotation\>).)+\<\/office\:annotation\>)\&gt\; ',
                           '"Quotations">\\1', text)
         return text
 
-- 
2.43.0


From d3450392fa8ab332c2ad779d003288b1ff808895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 35/83] fix: keep nested language passages when reading
 documents

---
 src/pywriter/odt_r/odt_r_import.py     | 24 ++++++------------------
 src/pywriter/odt_r/odt_r_manuscript.py | 19 +++++--------------
 src/pywriter/odt_r/odt_r_proof.py      | 19 +++++--------------
 src/pywriter/odt_r/odt_reader.py       | 19 ++++++++++++++++++-
 4 files changed, 34 insertions(+), 47 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_import.py b/src/pywriter/odt_r/odt_r_import.py
index 3c80697..8e18c43 100644
--- a/src/pywriter/odt_r/odt_r_import.py
+++ b/src/pywriter/odt_r/odt_r_import.py
@@ -93,9 +93,8 @@ class OdtRImport(OdtRFormatted):
         Overrides the superclass method.
         """
         if tag in ('p', 'blockquote'):
-            if self._language:
-                self._lines.append(f'[/lang={self._language}]')
-                self._language = ''
+            while self._languages:
+                self._close_language()
             self._lines.append('\n')
             if self._scId is not None:
                 sceneText = ''.join(self._lines).rstrip()
@@ -112,9 +111,7 @@ class OdtRImport(OdtRFormatted):
         elif tag == 'strong' and not self._heading:
             self._lines.append('[/b]')
         elif tag == 'lang' and not self._heading:
-            if self._language:
-                self._lines.append(f'[/lang={self._language}]')
-                self._language = ''
+            self._close_language()
         elif tag in ('h1', 'h2'):
             self.novel.chapters[self._chId].title = ''.join(self._lines)
             self._lines = []
@@ -144,10 +141,7 @@ class OdtRImport(OdtRFormatted):
         if tag == 'p':
             try:
                 if attrs[0][0] == 'lang':
-                    self._language = attrs[0][1]
-                    if not self._language in self.novel.languages:
-                        self.novel.languages.append(self._language)
-                    self._lines.append(f'[lang={self._language}]')
+                    self._open_language(attrs[0][1])
             except:
                 pass
         elif tag == 'em' and not self._heading:
@@ -156,10 +150,7 @@ class OdtRImport(OdtRFormatted):
             self._lines.append('[b]')
         elif tag == 'lang' and not self._heading:
             if attrs[0][0] == 'lang':
-                self._language = attrs[0][1]
-                if not self._language in self.novel.languages:
-                    self.novel.languages.append(self._language)
-                self._lines.append(f'[lang={self._language}]')
+                self._open_language(attrs[0][1])
         elif tag in ('h1', 'h2'):
             self._scId = None
             self._lines = []
@@ -198,10 +189,7 @@ class OdtRImport(OdtRFormatted):
             self._lines.append(f'{self._INDENT} ')
             try:
                 if attrs[0][0] == 'lang':
-                    self._language = attrs[0][1]
-                    if not self._language in self.novel.languages:
-                        self.novel.languages.append(self._language)
-                    self._lines.append(f'[lang={self._language}]')
+                    self._open_language(attrs[0][1])
             except:
                 pass
         elif tag == 's':
diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index 921ecf2..4a3f0dc 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -72,18 +72,15 @@ class OdtRManuscript(OdtRFormatted):
         """
         if self._scId is not None:
             if tag in ('p', 'blockquote'):
-                if self._language:
-                    self._lines.append(f'[/lang={self._language}]')
-                    self._language = ''
+                while self._languages:
+                    self._close_language()
                 self._lines.append('\n')
             elif tag == 'em':
                 self._lines.append('[/i]')
             elif tag == 'strong':
                 self._lines.append('[/b]')
             elif tag == 'lang':
-                if self._language:
-                    self._lines.append(f'[/lang={self._language}]')
-                    self._language = ''
+                self._close_language()
             elif tag == 'div':
                 text = ''.join(self._lines)
                 self.novel.scenes[self._scId].sceneContent = self._cleanup_scene(text).rstrip()
@@ -115,10 +112,7 @@ class OdtRManuscript(OdtRFormatted):
             elif tag in ('lang', 'p'):
                 try:
                     if attrs[0][0] == 'lang':
-                        self._language = attrs[0][1]
-                        if not self._language in self.novel.languages:
-                            self.novel.languages.append(self._language)
-                        self._lines.append(f'[lang={self._language}]')
+                        self._open_language(attrs[0][1])
                 except:
                     pass
             elif tag == 'h3':
@@ -135,10 +129,7 @@ class OdtRManuscript(OdtRFormatted):
                 self._lines.append(f'{self._INDENT} ')
                 try:
                     if attrs[0][0] == 'lang':
-                        self._language = attrs[0][1]
-                        if not self._language in self.novel.languages:
-                            self.novel.languages.append(self._language)
-                        self._lines.append(f'[lang={self._language}]')
+                        self._open_language(attrs[0][1])
                 except:
                     pass
         elif tag == 'body':
diff --git a/src/pywriter/odt_r/odt_r_proof.py b/src/pywriter/odt_r/odt_r_proof.py
index 97b05b6..b1c4da1 100644
--- a/src/pywriter/odt_r/odt_r_proof.py
+++ b/src/pywriter/odt_r/odt_r_proof.py
@@ -58,17 +58,14 @@ class OdtRProof(OdtRFormatted):
         """
         if tag in ['p', 'h2', 'h1', 'blockquote']:
             self._lines.append('\n')
-            if self._language:
-                self._lines.append(f'[/lang={self._language}]')
-                self._language = ''
+            while self._languages:
+                self._close_language()
         elif tag == 'em':
             self._lines.append('[/i]')
         elif tag == 'strong':
             self._lines.append('[/b]')
         elif tag == 'lang':
-            if self._language:
-                self._lines.append(f'[/lang={self._language}]')
-                self._language = ''
+            self._close_language()
 
     def handle_starttag(self, tag, attrs):
         """Recognize the paragraph's beginning.
@@ -86,10 +83,7 @@ class OdtRProof(OdtRFormatted):
         elif tag in ('lang', 'p'):
             try:
                 if attrs[0][0] == 'lang':
-                    self._language = attrs[0][1]
-                    if not self._language in self.novel.languages:
-                        self.novel.languages.append(self._language)
-                    self._lines.append(f'[lang={self._language}]')
+                    self._open_language(attrs[0][1])
             except:
                 pass
         elif tag == 'h2':
@@ -102,10 +96,7 @@ class OdtRProof(OdtRFormatted):
             self._lines.append(f'{self._INDENT} ')
             try:
                 if attrs[0][0] == 'lang':
-                    self._language = attrs[0][1]
-                    if not self._language in self.novel.languages:
-                        self.novel.languages.append(self._language)
-                    self._lines.append(f'[lang={self._language}]')
+                    self._open_language(attrs[0][1])
             except:
                 pass
         elif tag == 'body':
diff --git a/src/pywriter/odt_r/odt_reader.py b/src/pywriter/odt_r/odt_reader.py
index 154c34e..f181136 100644
--- a/src/pywriter/odt_r/odt_reader.py
+++ b/src/pywriter/odt_r/odt_reader.py
@@ -55,7 +55,8 @@ class OdtReader(File, ABC):
         self._scId = None
         self._chId = None
         self._newline = False
-        self._language = ''
+        self._languages = []
+        # stack of the languages of nested text passages
         self._skip_data = False
 
     def handle_comment(self, data):
@@ -118,6 +119,11 @@ class OdtReader(File, ABC):
         parser = OdtParser(self)
         parser.feed_file(self.filePath)
 
+    def _close_language(self):
+        """Append the closing tag of the innermost language passage."""
+        if self._languages:
+            self._lines.append(f'[/lang={self._languages.pop()}]')
+
     def _convert_to_yw(self, text):
         """Convert html formatting tags to yWriter 7 raw markup.
         
@@ -136,3 +142,14 @@ class OdtReader(File, ABC):
 
         return text
 
+    def _open_language(self, language):
+        """Register a language, and append its opening tag.
+        
+        Positional arguments:
+            language: str -- language code with or without country code.
+        """
+        self._languages.append(language)
+        if not language in self.novel.languages:
+            self.novel.languages.append(language)
+        self._lines.append(f'[lang={language}]')
+
-- 
2.43.0


From 725fc7355a30fca4d8673a664d7a45e43047fd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:42 +0000
Subject: [PATCH 36/83] fix: keep overlapping formatting in the proof reading
 document

---
 src/pywriter/odt_w/odt_w_proof.py | 26 +-------------------------
 1 file changed, 1 insertion(+), 25 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 6ef9c69..6d8921e 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -76,31 +76,7 @@ class OdtWProof(OdtWFormatted):
             ])
 
             #--- Process markup reaching across linebreaks.
-            newlines = []
-            lines = text.split('\n')
-            isOpen = {}
-            opening = {}
-            closing = {}
-            for tag in tags:
-                isOpen[tag] = False
-                opening[tag] = f'[{tag}]'
-                closing[tag] = f'[/{tag}]'
-            for line in lines:
-                for tag in tags:
-                    if isOpen[tag]:
-                        if line.startswith('> '):
-                            line = f"> {opening[tag]}{line[2:]}"
-                        else:
-                            line = f'{opening[tag]}{line}'
-                        isOpen[tag] = False
-                    while line.count(opening[tag]) > line.count(closing[tag]):
-                        line = f'{line}{closing[tag]}'
-                        isOpen[tag] = True
-                    while line.count(closing[tag]) > line.count(opening[tag]):
-                        line = f'{opening[tag]}{line}'
-                    line = line.replace(f'{opening[tag]}{closing[tag]}', '')
-                newlines.append(line)
-            text = '\n'.join(newlines).rstrip()
+            text = self._nest_markup(text, tags).rstrip()
 
             #--- Apply odt formating.
             for yw, od in odtReplacements:
-- 
2.43.0


From 0561db125c9a5c49b53fb6a16a9c403af65b8923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 37/83] fix: keep quotation marks at the line starts of
 comments

---
 src/pywriter/odt_r/odt_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 4a8bd00..1276468 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -169,6 +169,8 @@ class OdtParser(sax.ContentHandler):
             if self._commentParagraphCount is not None:
                 if self._commentParagraphCount > 0:
                     self._comment = f'{self._comment}\n'
+                if style in self._blockquoteTags:
+                    self._comment = f'{self._comment}> '
                 self._commentParagraphCount += 1
                 self._commentParagraph = True
                 return
-- 
2.43.0


From f88653d1ea444fb34d1eeefeaee45e362b0d6d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 38/83] fix: split only scenes that are in the imported
 document

---
 src/pywriter/model/splitter.py         | 8 +++++++-
 src/pywriter/odt_r/odt_r_formatted.py  | 4 +++-
 src/pywriter/odt_r/odt_r_import.py     | 1 +
 src/pywriter/odt_r/odt_r_manuscript.py | 1 +
 src/pywriter/odt_r/odt_r_proof.py      | 1 +
 5 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/model/splitter.py b/src/pywriter/model/splitter.py
index 4dbf26f..6b00958 100644
--- a/src/pywriter/model/splitter.py
+++ b/src/pywriter/model/splitter.py
@@ -32,7 +32,7 @@ class Splitter:
     _CLIP_TITLE = 20
     # Maximum length of newly generated scene titles.
 
-    def split_scenes(self, file):
+    def split_scenes(self, file, scIds=None):
         """Split scenes by inserted chapter and scene dividers.
         
         Update a Novel instance by generating new chapters and scenes 
@@ -41,6 +41,9 @@ class Splitter:
         Positional argument: 
             file -- File instance to update.
         
+        Optional arguments:
+            scIds -- collection of the IDs of the scenes to split. If None, all scenes are split.
+        
         Return True if the sructure has changed, 
         otherwise return False.        
         """
@@ -118,6 +121,9 @@ class Splitter:
             srtScenes = []
             for scId in file.novel.chapters[chId].srtScenes:
                 srtScenes.append(scId)
+                if scIds is not None and not scId in scIds:
+                    continue
+
                 if not file.novel.scenes[scId].sceneContent:
                     continue
 
diff --git a/src/pywriter/odt_r/odt_r_formatted.py b/src/pywriter/odt_r/odt_r_formatted.py
index cdb28a4..8ee4b87 100644
--- a/src/pywriter/odt_r/odt_r_formatted.py
+++ b/src/pywriter/odt_r/odt_r_formatted.py
@@ -28,11 +28,13 @@ class OdtRFormatted(OdtReader):
         Extends the superclass method.
         """
         self.novel.languages = []
+        self._scIdsRead = []
+        # IDs of the scenes whose content is in the document
         super().read()
 
         # Split scenes, if necessary.
         sceneSplitter = Splitter()
-        self.scenesSplit = sceneSplitter.split_scenes(self)
+        self.scenesSplit = sceneSplitter.split_scenes(self, self._scIdsRead)
 
     def _cleanup_scene(self, text):
         """Clean up yWriter markup.
diff --git a/src/pywriter/odt_r/odt_r_import.py b/src/pywriter/odt_r/odt_r_import.py
index 8e18c43..31c82a1 100644
--- a/src/pywriter/odt_r/odt_r_import.py
+++ b/src/pywriter/odt_r/odt_r_import.py
@@ -134,6 +134,7 @@ class OdtRImport(OdtRFormatted):
                 self._scCount += 1
                 self._scId = str(self._scCount)
                 self.novel.scenes[self._scId] = Scene()
+                self._scIdsRead.append(self._scId)
                 self.novel.chapters[self._chId].srtScenes.append(self._scId)
                 self.novel.scenes[self._scId].status = 1
                 self.novel.scenes[self._scId].scType = 0
diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index 4a3f0dc..9dff8de 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -84,6 +84,7 @@ class OdtRManuscript(OdtRFormatted):
             elif tag == 'div':
                 text = ''.join(self._lines)
                 self.novel.scenes[self._scId].sceneContent = self._cleanup_scene(text).rstrip()
+                self._scIdsRead.append(self._scId)
                 self._lines = []
                 self._scId = None
             elif tag == 'h1':
diff --git a/src/pywriter/odt_r/odt_r_proof.py b/src/pywriter/odt_r/odt_r_proof.py
index b1c4da1..964ec6b 100644
--- a/src/pywriter/odt_r/odt_r_proof.py
+++ b/src/pywriter/odt_r/odt_r_proof.py
@@ -41,6 +41,7 @@ class OdtRProof(OdtRFormatted):
                 if self._scId in self.novel.scenes:
                     text = ''.join(self._lines)
                     self.novel.scenes[self._scId].sceneContent = self._cleanup_scene(text).strip()
+                    self._scIdsRead.append(self._scId)
                     self._lines = []
                 self._scId = None
             elif self._scId is not None:
-- 
2.43.0


From 5de21bc3d84748cf8597d1e99be5bbb00a78f35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 39/83] fix: read documents larger than the parser's buffer
 without splitting markers

---
 src/pywriter/odt_r/odt_parser.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 1276468..d4aeecc 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -38,6 +38,7 @@ class OdtParser(sax.ContentHandler):
         self._list = False
         self._span = []
         self._style = None
+        self._data = []
         self._client = client
 
     def feed_file(self, filePath):
@@ -108,6 +109,16 @@ class OdtParser(sax.ContentHandler):
         
         Overrides the xml.sax.ContentHandler method             
         """
+        self._data.append(content)
+        # The SAX parser may split contiguous character data.
+
+    def _flush_data(self):
+        """Process the character data collected since the last tag."""
+        if not self._data:
+            return
+
+        content = ''.join(self._data)
+        self._data = []
         if self._commentParagraphCount is not None:
             if self._commentParagraph:
                 self._comment = f'{self._comment}{content}'
@@ -121,6 +132,7 @@ class OdtParser(sax.ContentHandler):
         
         Overrides the xml.sax.ContentHandler method     
         """
+        self._flush_data()
         if name == 'text:p':
             if self._commentParagraphCount is not None:
                 self._commentParagraph = False
@@ -157,6 +169,7 @@ class OdtParser(sax.ContentHandler):
         
         Overrides the xml.sax.ContentHandler method             
         """
+        self._flush_data()
         xmlAttributes = {}
         for attribute in attrs.items():
             attrKey, attrValue = attribute
-- 
2.43.0


From 3e1b4152f3e7390bb95702bf87edb5d5a1b66152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 40/83] fix: do not add blanks from outside a section to its
 text

---
 src/pywriter/odt_r/odt_r_characters.py | 2 ++
 src/pywriter/odt_r/odt_r_items.py      | 1 +
 src/pywriter/odt_r/odt_r_locations.py  | 1 +
 src/pywriter/odt_r/odt_reader.py       | 2 ++
 4 files changed, 6 insertions(+)

diff --git a/src/pywriter/odt_r/odt_r_characters.py b/src/pywriter/odt_r/odt_r_characters.py
index 6e5972f..1f08709 100644
--- a/src/pywriter/odt_r/odt_r_characters.py
+++ b/src/pywriter/odt_r/odt_r_characters.py
@@ -88,6 +88,8 @@ class OdtRCharacters(OdtReader):
         """
         if tag == 'div':
             if attrs[0][0] == 'id':
+                if attrs[0][1].startswith('CrID'):
+                    self._lines = []
                 if attrs[0][1].startswith('CrID_desc'):
                     self._crId = re.search(r'[0-9]+', attrs[0][1]).group()
                     if not self._crId in self.novel.characters:
diff --git a/src/pywriter/odt_r/odt_r_items.py b/src/pywriter/odt_r/odt_r_items.py
index b3633ea..d18396b 100644
--- a/src/pywriter/odt_r/odt_r_items.py
+++ b/src/pywriter/odt_r/odt_r_items.py
@@ -75,6 +75,7 @@ class OdtRItems(OdtReader):
         if tag == 'div':
             if attrs[0][0] == 'id':
                 if attrs[0][1].startswith('ItID'):
+                    self._lines = []
                     self._itId = re.search(r'[0-9]+', attrs[0][1]).group()
                     if not self._itId in self.novel.items:
                         self.novel.srtItems.append(self._itId)
diff --git a/src/pywriter/odt_r/odt_r_locations.py b/src/pywriter/odt_r/odt_r_locations.py
index 6ac6cc2..a8fb95f 100644
--- a/src/pywriter/odt_r/odt_r_locations.py
+++ b/src/pywriter/odt_r/odt_r_locations.py
@@ -75,6 +75,7 @@ class OdtRLocations(OdtReader):
         if tag == 'div':
             if attrs[0][0] == 'id':
                 if attrs[0][1].startswith('LcID'):
+                    self._lines = []
                     self._lcId = re.search(r'[0-9]+', attrs[0][1]).group()
                     if not self._lcId in self.novel.locations:
                         self.novel.srtLocations.append(self._lcId)
diff --git a/src/pywriter/odt_r/odt_reader.py b/src/pywriter/odt_r/odt_reader.py
index f181136..13d3d89 100644
--- a/src/pywriter/odt_r/odt_reader.py
+++ b/src/pywriter/odt_r/odt_reader.py
@@ -100,12 +100,14 @@ class OdtReader(File, ABC):
         if tag == 'div':
             if attrs[0][0] == 'id':
                 if attrs[0][1].startswith('ScID'):
+                    self._lines = []
                     self._scId = re.search(r'[0-9]+', attrs[0][1]).group()
                     if not self._scId in self.novel.scenes:
                         self.novel.scenes[self._scId] = Scene()
                         self.novel.chapters[self._chId].srtScenes.append(self._scId)
                     self.novel.scenes[self._scId].scType = self._TYPE
                 elif attrs[0][1].startswith('ChID'):
+                    self._lines = []
                     self._chId = re.search(r'[0-9]+', attrs[0][1]).group()
                     if not self._chId in self.novel.chapters:
                         self.novel.chapters[self._chId] = Chapter()
-- 
2.43.0


From 6497d7d0086c75dcf7c07dd704e41b279258611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:06 +0000
Subject: [PATCH 41/83] fix: do not take the titles of scenes for titles of
 untitled chapters

---
 src/pywriter/odt_r/odt_r_manuscript.py | 2 +-
 src/pywriter/odt_r/odt_r_scenedesc.py  | 2 +-
 src/pywriter/odt_r/odt_reader.py       | 5 +++++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index 9dff8de..67db581 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -58,7 +58,7 @@ class OdtRManuscript(OdtRFormatted):
             self._skip_data = False
         elif self._scId is not None:
             self._lines.append(data)
-        elif self._chId is not None:
+        elif self._chId is not None and self._chapterHeading:
             if self.novel.chapters[self._chId].title is None:
                 self.novel.chapters[self._chId].title = data.strip()
 
diff --git a/src/pywriter/odt_r/odt_r_scenedesc.py b/src/pywriter/odt_r/odt_r_scenedesc.py
index 66190b2..968b898 100644
--- a/src/pywriter/odt_r/odt_r_scenedesc.py
+++ b/src/pywriter/odt_r/odt_r_scenedesc.py
@@ -30,7 +30,7 @@ class OdtRSceneDesc(OdtReader):
         """
         if self._scId is not None:
             self._lines.append(data)
-        elif self._chId is not None:
+        elif self._chId is not None and self._chapterHeading:
             if not self.novel.chapters[self._chId].title:
                 self.novel.chapters[self._chId].title = data.strip()
 
diff --git a/src/pywriter/odt_r/odt_reader.py b/src/pywriter/odt_r/odt_reader.py
index 13d3d89..0eeadb0 100644
--- a/src/pywriter/odt_r/odt_reader.py
+++ b/src/pywriter/odt_r/odt_reader.py
@@ -58,6 +58,7 @@ class OdtReader(File, ABC):
         self._languages = []
         # stack of the languages of nested text passages
         self._skip_data = False
+        self._chapterHeading = False
 
     def handle_comment(self, data):
         """Process inline comments within scene content.
@@ -116,6 +117,10 @@ class OdtReader(File, ABC):
                     self.novel.chapters[self._chId].chType = self._TYPE
         elif tag == 's':
             self._lines.append(' ')
+        elif tag in ('h1', 'h2'):
+            self._chapterHeading = True
+        elif tag in ('h3', 'p'):
+            self._chapterHeading = False
 
     def read(self):
         parser = OdtParser(self)
-- 
2.43.0


From 12eff734fb5acd5c077f1b37dbf5d60ea2df3fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:41 +0000
Subject: [PATCH 42/83] fix: close languages at the paragraph end when reading
 proof documents

---
 src/pywriter/odt_r/odt_r_proof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_r_proof.py b/src/pywriter/odt_r/odt_r_proof.py
index 964ec6b..4ed8a8a 100644
--- a/src/pywriter/odt_r/odt_r_proof.py
+++ b/src/pywriter/odt_r/odt_r_proof.py
@@ -58,9 +58,9 @@ class OdtRProof(OdtRFormatted):
         Overrides the superclass method.
         """
         if tag in ['p', 'h2', 'h1', 'blockquote']:
-            self._lines.append('\n')
             while self._languages:
                 self._close_language()
+            self._lines.append('\n')
         elif tag == 'em':
             self._lines.append('[/i]')
         elif tag == 'strong':
-- 
2.43.0


From 9e46d7c72360548a454be479ea9ddc1bf1d8be8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:02 +0000
Subject: [PATCH 43/83] fix: keep the line break after quotations in imported
 descriptions

---
 src/pywriter/odt_r/odt_r_chapterdesc.py | 2 +-
 src/pywriter/odt_r/odt_r_characters.py  | 2 +-
 src/pywriter/odt_r/odt_r_items.py       | 2 +-
 src/pywriter/odt_r/odt_r_locations.py   | 2 +-
 src/pywriter/odt_r/odt_r_scenedesc.py   | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_chapterdesc.py b/src/pywriter/odt_r/odt_r_chapterdesc.py
index fc893ca..0b69aa7 100644
--- a/src/pywriter/odt_r/odt_r_chapterdesc.py
+++ b/src/pywriter/odt_r/odt_r_chapterdesc.py
@@ -33,7 +33,7 @@ class OdtRChapterDesc(OdtReader):
                 self.novel.chapters[self._chId].desc = ''.join(self._lines).rstrip()
                 self._lines = []
                 self._chId = None
-            elif tag == 'p':
+            elif tag in ('p', 'blockquote'):
                 self._lines.append('\n')
             elif tag == 'h1' or tag == 'h2':
                 if not self.novel.chapters[self._chId].title:
diff --git a/src/pywriter/odt_r/odt_r_characters.py b/src/pywriter/odt_r/odt_r_characters.py
index 1f08709..2da8eaf 100644
--- a/src/pywriter/odt_r/odt_r_characters.py
+++ b/src/pywriter/odt_r/odt_r_characters.py
@@ -74,7 +74,7 @@ class OdtRCharacters(OdtReader):
                     self.novel.characters[self._crId].notes = ''.join(self._lines).rstrip()
                     self._lines = []
                     self._section = None
-            elif tag == 'p':
+            elif tag in ('p', 'blockquote'):
                 self._lines.append('\n')
 
     def handle_starttag(self, tag, attrs):
diff --git a/src/pywriter/odt_r/odt_r_items.py b/src/pywriter/odt_r/odt_r_items.py
index d18396b..6151eb1 100644
--- a/src/pywriter/odt_r/odt_r_items.py
+++ b/src/pywriter/odt_r/odt_r_items.py
@@ -60,7 +60,7 @@ class OdtRItems(OdtReader):
                 self.novel.items[self._itId].desc = ''.join(self._lines).rstrip()
                 self._lines = []
                 self._itId = None
-            elif tag == 'p':
+            elif tag in ('p', 'blockquote'):
                 self._lines.append('\n')
 
     def handle_starttag(self, tag, attrs):
diff --git a/src/pywriter/odt_r/odt_r_locations.py b/src/pywriter/odt_r/odt_r_locations.py
index a8fb95f..4365c59 100644
--- a/src/pywriter/odt_r/odt_r_locations.py
+++ b/src/pywriter/odt_r/odt_r_locations.py
@@ -60,7 +60,7 @@ class OdtRLocations(OdtReader):
                 self.novel.locations[self._lcId].desc = ''.join(self._lines).rstrip()
                 self._lines = []
                 self._lcId = None
-            elif tag == 'p':
+            elif tag in ('p', 'blockquote'):
                 self._lines.append('\n')
 
     def handle_starttag(self, tag, attrs):
diff --git a/src/pywriter/odt_r/odt_r_scenedesc.py b/src/pywriter/odt_r/odt_r_scenedesc.py
index 968b898..ca7b5a8 100644
--- a/src/pywriter/odt_r/odt_r_scenedesc.py
+++ b/src/pywriter/odt_r/odt_r_scenedesc.py
@@ -58,7 +58,7 @@ class OdtRSceneDesc(OdtReader):
                 self.novel.scenes[self._scId].desc = text.rstrip()
                 self._lines = []
                 self._scId = None
-            elif tag == 'p':
+            elif tag in ('p', 'blockquote'):
                 self._lines.append('\n')
         elif self._chId is not None:
             if tag == 'div':
-- 
2.43.0


From 7f36bcff2e10846a00025152a757147e27ebc8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:44 +0000
Subject: [PATCH 44/83] fix: read grouped and repeated heading rows, and merged
 cells of tables

---
 src/pywriter/ods_r/ods_parser.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/ods_r/ods_parser.py b/src/pywriter/ods_r/ods_parser.py
index 61786a7..7596b03 100644
--- a/src/pywriter/ods_r/ods_parser.py
+++ b/src/pywriter/ods_r/ods_parser.py
@@ -53,10 +53,19 @@ class OdsParser:
         spreadsheet = body.find('office:spreadsheet', namespaces)
         table = spreadsheet.find('table:table', namespaces)
         rows = []
-        for row in table.findall('table:table-row', namespaces):
+        rowTag = f'{{{namespaces["table"]}}}table-row'
+        cellTags = [
+            f'{{{namespaces["table"]}}}table-cell',
+            f'{{{namespaces["table"]}}}covered-table-cell',
+            ]
+        for row in table.iter(rowTag):
+            # including the rows in groups, and header rows
             cells = []
             i = 0
-            for cell in row.findall('table:table-cell', namespaces):
+            for cell in row:
+                if not cell.tag in cellTags:
+                    continue
+
                 content = ''
                 if cell.find('text:p', namespaces) is not None:
                     paragraphs = []
-- 
2.43.0


From d49e0321d13d140ee28db520bfdac89babf6dba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 45/83] fix: do not duplicate elements if a list has two rows
 with the same ID

---
 src/pywriter/ods_r/ods_r_charlist.py | 3 ++-
 src/pywriter/ods_r/ods_r_itemlist.py | 3 ++-
 src/pywriter/ods_r/ods_r_loclist.py  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/ods_r/ods_r_charlist.py b/src/pywriter/ods_r/ods_r_charlist.py
index 22a35d2..6d32db8 100644
--- a/src/pywriter/ods_r/ods_r_charlist.py
+++ b/src/pywriter/ods_r/ods_r_charlist.py
@@ -32,7 +32,8 @@ class OdsRCharList(OdsReader):
         for cells in self._rows:
             if 'CrID:' in cells[0]:
                 crId = re.search(r'CrID\:([0-9]+)', cells[0]).group(1)
-                self.novel.srtCharacters.append(crId)
+                if not crId in self.novel.srtCharacters:
+                    self.novel.srtCharacters.append(crId)
                 if not crId in self.novel.characters:
                     self.novel.characters[crId] = Character()
                 if self.novel.characters[crId].title or cells[1]:
diff --git a/src/pywriter/ods_r/ods_r_itemlist.py b/src/pywriter/ods_r/ods_r_itemlist.py
index 19fa282..4a01997 100644
--- a/src/pywriter/ods_r/ods_r_itemlist.py
+++ b/src/pywriter/ods_r/ods_r_itemlist.py
@@ -32,7 +32,8 @@ class OdsRItemList(OdsReader):
         for cells in self._rows:
             if 'ItID:' in cells[0]:
                 itId = re.search(r'ItID\:([0-9]+)', cells[0]).group(1)
-                self.novel.srtItems.append(itId)
+                if not itId in self.novel.srtItems:
+                    self.novel.srtItems.append(itId)
                 if not itId in self.novel.items:
                     self.novel.items[itId] = WorldElement()
                 if self.novel.items[itId].title or cells[1]:
diff --git a/src/pywriter/ods_r/ods_r_loclist.py b/src/pywriter/ods_r/ods_r_loclist.py
index 1854250..8ca8ace 100644
--- a/src/pywriter/ods_r/ods_r_loclist.py
+++ b/src/pywriter/ods_r/ods_r_loclist.py
@@ -32,7 +32,8 @@ class OdsRLocList(OdsReader):
         for cells in self._rows:
             if 'LcID:' in cells[0]:
                 lcId = re.search(r'LcID\:([0-9]+)', cells[0]).group(1)
-                self.novel.srtLocations.append(lcId)
+                if not lcId in self.novel.srtLocations:
+                    self.novel.srtLocations.append(lcId)
                 if not lcId in self.novel.locations:
                     self.novel.locations[lcId] = WorldElement()
                 if self.novel.locations[lcId].title or cells[1]:
-- 
2.43.0


From 81fbaf8bd4116ff1be9dadf6c0d5702cfc68827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:48 +0000
Subject: [PATCH 46/83] fix: do not save links to story elements that have been
 removed

---
 src/pywriter/yw/yw7_file.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 2af5dd1..bc5dd8f 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -521,27 +521,30 @@ class Yw7File(File):
                 xmlScene.remove(xmlScene.find('Characters'))
             except:
                 pass
-            if prjScn.characters:
+            scCharacters = [crId for crId in prjScn.characters or [] if crId in self.novel.srtCharacters]
+            if scCharacters:
                 xmlCharacters = ET.SubElement(xmlScene, 'Characters')
-                for crId in prjScn.characters:
+                for crId in scCharacters:
                     ET.SubElement(xmlCharacters, 'CharID').text = crId
 
             try:
                 xmlScene.remove(xmlScene.find('Locations'))
             except:
                 pass
-            if prjScn.locations:
+            scLocations = [lcId for lcId in prjScn.locations or [] if lcId in self.novel.srtLocations]
+            if scLocations:
                 xmlLocations = ET.SubElement(xmlScene, 'Locations')
-                for lcId in prjScn.locations:
+                for lcId in scLocations:
                     ET.SubElement(xmlLocations, 'LocID').text = lcId
 
             try:
                 xmlScene.remove(xmlScene.find('Items'))
             except:
                 pass
-            if prjScn.items:
+            scItems = [ItId for ItId in prjScn.items or [] if ItId in self.novel.srtItems]
+            if scItems:
                 xmlItems = ET.SubElement(xmlScene, 'Items')
-                for ItId in prjScn.items:
+                for ItId in scItems:
                     ET.SubElement(xmlItems, 'ItemID').text = ItId
 
         def build_chapter_subtree(xmlChapter, prjChp):
-- 
2.43.0


From 3943f6a7dcd58f8790386e1c455c1f000515f635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 47/83] fix: ignore excess cells after repeated cells at the
 end of a table row

---
 src/pywriter/ods_r/ods_parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/ods_r/ods_parser.py b/src/pywriter/ods_r/ods_parser.py
index 7596b03..bd40e21 100644
--- a/src/pywriter/ods_r/ods_parser.py
+++ b/src/pywriter/ods_r/ods_parser.py
@@ -81,9 +81,6 @@ class OdsParser:
                     break
 
                 i += 1
-                if i >= cellsPerRow:
-                    # The cell is excess, created by Calc.
-                    break
 
                 # Add repeated cells.
                 attribute = cell.get(f'{{{namespaces["table"]}}}number-columns-repeated')
@@ -96,6 +93,10 @@ class OdsParser:
 
                         cells.append(content)
                         i += 1
+                if i >= cellsPerRow:
+                    # The remaining cells are excess, created by Calc.
+                    break
+
             if cells:
                 rows.append(cells)
                 # print(cells)
-- 
2.43.0


From 01c940885633c171339637d898599274d0daacc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 48/83] fix: do not continue the formatting of inserted
 headings in the text

---
 src/pywriter/odt_r/odt_r_formatted.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_formatted.py b/src/pywriter/odt_r/odt_r_formatted.py
index 8ee4b87..3e0ff9a 100644
--- a/src/pywriter/odt_r/odt_r_formatted.py
+++ b/src/pywriter/odt_r/odt_r_formatted.py
@@ -51,8 +51,19 @@ class OdtRFormatted(OdtReader):
             tags.append(f'lang={language}')
         for tag in tags:
             text = text.replace(f'[/{tag}][{tag}]', '')
-            text = text.replace(f'[/{tag}]\n[{tag}]', '\n')
-            text = text.replace(f'[/{tag}]\n> [{tag}]', '\n> ')
+            lines = text.split('\n')
+            for i in range(1, len(lines)):
+                if lines[i - 1].startswith(Splitter.PART_SEPARATOR) or not lines[i - 1].endswith(f'[/{tag}]'):
+                    # The formatting of a heading does not continue in the text.
+                    continue
+
+                for start in (f'[{tag}]', f'> [{tag}]'):
+                    if lines[i].startswith(start):
+                        lines[i - 1] = lines[i - 1][:-len(f'[/{tag}]')]
+                        lines[i] = lines[i].replace(f'[{tag}]', '', 1)
+                        break
+
+            text = '\n'.join(lines)
 
         #--- Remove misplaced formatting tags.
         # text = re.sub(r'\[\/*[b|i]\]', '', text)
-- 
2.43.0


From fbc8e9b56390a1fdd9e704f76730a753246a1ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:08 +0000
Subject: [PATCH 49/83] fix: do not split scenes at comment lines that look
 like headings

---
 src/pywriter/model/splitter.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/model/splitter.py b/src/pywriter/model/splitter.py
index 6b00958..1d4a184 100644
--- a/src/pywriter/model/splitter.py
+++ b/src/pywriter/model/splitter.py
@@ -4,6 +4,7 @@ Copyright (c) 2023 Peter Triesberger
 For further information see https://github.com/peter88213/PyWriter
 Published under the MIT License (https://opensource.org/licenses/mit-license.php)
 """
+import re
 from pywriter.pywriter_globals import *
 from pywriter.model.chapter import Chapter
 from pywriter.model.scene import Scene
@@ -112,6 +113,15 @@ class Splitter:
             newScene.lastsMinutes = parent.lastsMinutes
             file.novel.scenes[sceneId] = newScene
 
+        def get_comment_lines(text):
+            """Return a set with the numbers of the lines that begin inside a comment."""
+            commentLines = set()
+            for comment in re.finditer(r'/\*.*?\*/', text, flags=re.DOTALL):
+                firstLine = text.count('\n', 0, comment.start())
+                lastLine = text.count('\n', 0, comment.end())
+                commentLines.update(range(firstLine + 1, lastLine + 1))
+            return commentLines
+
         # Process chapters and scenes.
         scenesSplit = False
         srtChapters = []
@@ -129,19 +139,25 @@ class Splitter:
 
                 sceneId = scId
                 lines = file.novel.scenes[scId].sceneContent.split('\n')
+                commentLines = get_comment_lines(file.novel.scenes[scId].sceneContent)
                 newLines = []
                 inScene = True
                 sceneSplitCount = 0
 
                 # Search scene content for dividers.
-                for line in lines:
+                for lineNumber, line in enumerate(lines):
+                    if lineNumber in commentLines:
+                        # This is no heading, although it may look like one.
+                        divider = ''
+                    else:
+                        divider = line
                     heading = line.strip('# ').split(self.DESC_SEPARATOR, maxsplit=1)
                     title = heading[0]
                     try:
                         desc = heading[1]
                     except:
                         desc = ''
-                    if line.startswith(self.SCENE_SEPARATOR):
+                    if divider.startswith(self.SCENE_SEPARATOR):
                         # Split the scene.
                         if inScene:
                             file.novel.scenes[sceneId].sceneContent = '\n'.join(newLines)
@@ -152,7 +168,7 @@ class Splitter:
                         srtScenes.append(sceneId)
                         scenesSplit = True
                         inScene = True
-                    elif line.startswith(self.CHAPTER_SEPARATOR):
+                    elif divider.startswith(self.CHAPTER_SEPARATOR):
                         # Start a new chapter.
                         if inScene:
                             file.novel.scenes[sceneId].sceneContent = '\n'.join(newLines)
@@ -167,7 +183,7 @@ class Splitter:
                         create_chapter(chapterId, title, desc, 0)
                         srtChapters.append(chapterId)
                         scenesSplit = True
-                    elif line.startswith(self.PART_SEPARATOR):
+                    elif divider.startswith(self.PART_SEPARATOR):
                         # start a new part.
                         if inScene:
                             file.novel.scenes[sceneId].sceneContent = '\n'.join(newLines)
-- 
2.43.0


From e6b54c3fc240bedcb2559bfe138b66963460622e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 50/83] fix: do not take scene dividers after inserted headings
 as chapter titles

---
 src/pywriter/odt_r/odt_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_reader.py b/src/pywriter/odt_r/odt_reader.py
index 0eeadb0..7707bee 100644
--- a/src/pywriter/odt_r/odt_reader.py
+++ b/src/pywriter/odt_r/odt_reader.py
@@ -118,7 +118,8 @@ class OdtReader(File, ABC):
         elif tag == 's':
             self._lines.append(' ')
         elif tag in ('h1', 'h2'):
-            self._chapterHeading = True
+            self._chapterHeading = self._scId is None
+            # headings inserted in a scene are no chapter titles
         elif tag in ('h3', 'p'):
             self._chapterHeading = False
 
-- 
2.43.0


From 62a05ecfb484aca879db8e67e59e0a7e51fd9147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 51/83] fix: do not drop text that contains a scene divider,
 nor join headings and paragraphs of imported documents

---
 src/pywriter/odt_r/odt_r_import.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_import.py b/src/pywriter/odt_r/odt_r_import.py
index 31c82a1..da6445c 100644
--- a/src/pywriter/odt_r/odt_r_import.py
+++ b/src/pywriter/odt_r/odt_r_import.py
@@ -35,6 +35,7 @@ class OdtRImport(OdtRFormatted):
     SUFFIX = ''
     _SCENE_DIVIDER = '* * *'
     _LOW_WORDCOUNT = 10
+    _LOW_HEADINGS = [f'h{level}' for level in range(3, 11)]
 
     def __init__(self, filePath, **kwargs):
         """Initialize local instance variables for parsing.
@@ -50,6 +51,9 @@ class OdtRImport(OdtRFormatted):
         self._chCount = 0
         self._scCount = 0
         self._heading = False
+        self._paragraphStart = 0
+        self._paragraphText = ''
+        # text of the current paragraph
 
     def handle_comment(self, data):
         """Process inline comments within scene content.
@@ -79,10 +83,8 @@ class OdtRImport(OdtRFormatted):
         
         Overrides the superclass method.
         """
-        if self._scId is not None and self._SCENE_DIVIDER in data:
-            self._scId = None
-        else:
-            self._lines.append(data)
+        self._lines.append(data)
+        self._paragraphText = f'{self._paragraphText}{data}'
 
     def handle_endtag(self, tag):
         """Recognize the paragraph's end.
@@ -92,9 +94,14 @@ class OdtRImport(OdtRFormatted):
 
         Overrides the superclass method.
         """
+        if tag in self._LOW_HEADINGS:
+            tag = 'p'
         if tag in ('p', 'blockquote'):
             while self._languages:
                 self._close_language()
+            if self._paragraphText.strip() == self._SCENE_DIVIDER:
+                del self._lines[self._paragraphStart:]
+                self._scId = None
             self._lines.append('\n')
             if self._scId is not None:
                 sceneText = ''.join(self._lines).rstrip()
@@ -128,6 +135,9 @@ class OdtRImport(OdtRFormatted):
         
         Overrides the superclass method.
         """
+        if tag in self._LOW_HEADINGS:
+            # Headings below the chapter level belong to the text.
+            tag = 'p'
         if tag in ('p', 'li', 'blockquote'):
             if self._scId is None and self._chId is not None:
                 self._lines = []
@@ -139,6 +149,8 @@ class OdtRImport(OdtRFormatted):
                 self.novel.scenes[self._scId].status = 1
                 self.novel.scenes[self._scId].scType = 0
                 self.novel.scenes[self._scId].title = f'{_("Scene")} {self._scCount}'
+            self._paragraphStart = len(self._lines)
+            self._paragraphText = ''
         if tag == 'p':
             try:
                 if attrs[0][0] == 'lang':
@@ -194,7 +206,7 @@ class OdtRImport(OdtRFormatted):
             except:
                 pass
         elif tag == 's':
-            self._lines.append(' ')
+            self.handle_data(' ')
 
     def read(self):
         """Parse the file and get the instance variables.
-- 
2.43.0


From 86df059a8574c4183f12d0627915ad1ebbf8d88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 52/83] fix: import the text in user defined sections of works
 in progress and outlines

---
 src/pywriter/odt_r/odt_r_import.py  | 3 ---
 src/pywriter/odt_r/odt_r_outline.py | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_import.py b/src/pywriter/odt_r/odt_r_import.py
index da6445c..882bcb8 100644
--- a/src/pywriter/odt_r/odt_r_import.py
+++ b/src/pywriter/odt_r/odt_r_import.py
@@ -178,9 +178,6 @@ class OdtRImport(OdtRFormatted):
             else:
                 self.novel.chapters[self._chId].chLevel = 0
             self._heading = True
-        elif tag == 'div':
-            self._scId = None
-            self._chId = None
         elif tag == 'meta':
             if attrs[0][1] == 'author':
                 self.novel.authorName = attrs[1][1]
diff --git a/src/pywriter/odt_r/odt_r_outline.py b/src/pywriter/odt_r/odt_r_outline.py
index 19cbf69..793e055 100644
--- a/src/pywriter/odt_r/odt_r_outline.py
+++ b/src/pywriter/odt_r/odt_r_outline.py
@@ -111,9 +111,6 @@ class OdtROutline(OdtReader):
             self.novel.scenes[self._scId].sceneContent = ''
             self.novel.scenes[self._scId].status = 1
             self.novel.scenes[self._scId].scType = 0
-        elif tag == 'div':
-            self._scId = None
-            self._chId = None
         elif tag == 'meta':
             if attrs[0][1] == 'author':
                 self.novel.authorName = attrs[1][1]
-- 
2.43.0


From 97051c0f67f58ed9d0a31525eb33bce0d281452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 53/83] fix: keep the headings below the scene level in
 imported outlines

---
 src/pywriter/odt_r/odt_r_outline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_r_outline.py b/src/pywriter/odt_r/odt_r_outline.py
index 793e055..965aeeb 100644
--- a/src/pywriter/odt_r/odt_r_outline.py
+++ b/src/pywriter/odt_r/odt_r_outline.py
@@ -30,6 +30,8 @@ class OdtROutline(OdtReader):
     """
     DESCRIPTION = _('Novel outline')
     SUFFIX = ''
+    _LOW_HEADINGS = [f'h{level}' for level in range(4, 11)]
+    # headings that belong to the descriptions
 
     def __init__(self, filePath, **kwargs):
         """Initialize local instance variables for parsing.
@@ -64,7 +66,7 @@ class OdtROutline(OdtReader):
         Overrides the superclass method.
         """
         text = ''.join(self._lines)
-        if tag in ('p', 'blockquote'):
+        if tag in ('p', 'blockquote') or tag in self._LOW_HEADINGS:
             text = f'{text.strip()}\n'
             self._lines = [text]
             if self._scId is not None:
-- 
2.43.0


From 1bb15222b138d76b764e88b8b733382bc23a6d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:55 +0000
Subject: [PATCH 54/83] fix: read documents without language settings

---
 src/pywriter/odt_r/odt_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index d4aeecc..5352960 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -73,10 +73,13 @@ class OdtParser(sax.ContentHandler):
 
         #--- Get language and country from 'styles.xml'.
         root = ET.fromstring(styles)
-        styles = root.find('office:styles', namespaces)
-        for defaultStyle in styles.findall('style:default-style', namespaces):
+        for defaultStyle in root.findall('office:styles/style:default-style', namespaces):
             if defaultStyle.get(f'{{{namespaces["style"]}}}family') == 'paragraph':
                 textProperties = defaultStyle.find('style:text-properties', namespaces)
+                if textProperties is None:
+                    # There is no document language.
+                    continue
+
                 lngCode = textProperties.get(f'{{{namespaces["fo"]}}}language')
                 ctrCode = textProperties.get(f'{{{namespaces["fo"]}}}country')
                 self._client.handle_starttag('body', [('language', lngCode), ('country', ctrCode)])
-- 
2.43.0


From 25e7db15f778b858f0ea07228285f68029813d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:17 +0000
Subject: [PATCH 55/83] fix: keep the language of list items

---
 src/pywriter/odt_r/odt_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 5352960..fdff6f1 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -208,6 +208,9 @@ class OdtParser(sax.ContentHandler):
                 self._client.handle_starttag('p', param)
                 self._paragraph = True
             self._open_span(style)
+            if self._list and not self._blockquote and self._heading is None and style in self._languageTags:
+                self._span[-1].append('lang')
+                self._client.handle_starttag('lang', [('lang', self._languageTags[style])])
         elif name == 'text:span':
             if self._commentParagraphCount is None:
                 self._open_span(style)
-- 
2.43.0


From 789782abae9961528b29f71cabee5aff963d28f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:28 +0000
Subject: [PATCH 56/83] fix: do not join lower headings in scenes with the next
 paragraph

---
 src/pywriter/odt_r/odt_r_manuscript.py | 11 ++++++-----
 src/pywriter/odt_r/odt_r_proof.py      |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index 67db581..96b0597 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -55,8 +55,9 @@ class OdtRManuscript(OdtRFormatted):
         Overrides the superclass method.
         """
         if self._skip_data:
-            self._skip_data = False
-        elif self._scId is not None:
+            return
+
+        if self._scId is not None:
             self._lines.append(data)
         elif self._chId is not None and self._chapterHeading:
             if self.novel.chapters[self._chId].title is None:
@@ -87,9 +88,9 @@ class OdtRManuscript(OdtRFormatted):
                 self._scIdsRead.append(self._scId)
                 self._lines = []
                 self._scId = None
-            elif tag == 'h1':
-                self._lines.append('\n')
-            elif tag == 'h2':
+            elif tag == 'h3':
+                self._skip_data = False
+            elif tag.startswith('h'):
                 self._lines.append('\n')
         elif self._chId is not None:
             if tag == 'div':
diff --git a/src/pywriter/odt_r/odt_r_proof.py b/src/pywriter/odt_r/odt_r_proof.py
index 4ed8a8a..1e0cf9b 100644
--- a/src/pywriter/odt_r/odt_r_proof.py
+++ b/src/pywriter/odt_r/odt_r_proof.py
@@ -57,7 +57,7 @@ class OdtRProof(OdtRFormatted):
 
         Overrides the superclass method.
         """
-        if tag in ['p', 'h2', 'h1', 'blockquote']:
+        if tag in ('p', 'blockquote') or tag.startswith('h'):
             while self._languages:
                 self._close_language()
             self._lines.append('\n')
-- 
2.43.0


From 4cc97eef270f4623c4f2ffd47a309eb8a31fea91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 57/83] fix: report that no temporary directory can be created

---
 src/pywriter/odf/odf_file.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index bd2edc1..f463cf0 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -42,7 +42,11 @@ class OdfFile(FileExport):
         Extends the superclass constructor,        
         """
         super().__init__(filePath, **kwargs)
-        self._tempDir = tempfile.mkdtemp(suffix='.tmp', prefix='odf_')
+        try:
+            self._tempDir = tempfile.mkdtemp(suffix='.tmp', prefix='odf_')
+        except OSError:
+            raise Error(f'{_("Cannot create directory")}: "odf_.tmp".')
+
         self._originalPath = self._filePath
 
     def __del__(self):
-- 
2.43.0


From aeeb02013a45e4d016fc7854d0a1754a9a6b0a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 58/83] fix: do not remove a file that is none of the data
 files if writing them fails

---
 src/pywriter/yw/yw7_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index bc5dd8f..970300d 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -212,7 +212,7 @@ class Yw7File(File):
         except:
             if backedUp:
                 os.replace(f'{self.filePath}.bak', self.filePath)
-            elif os.path.isfile(self.filePath):
+            elif backedUp is not None and os.path.isfile(self.filePath):
                 # Do not leave an incomplete file.
                 os.remove(self.filePath)
             raise
-- 
2.43.0


From d81e6c6ea84f9679aa46d5e95b8919f10b407ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 59/83] fix: keep proof documents well-formed if a title has a
 line break

---
 src/pywriter/odt_w/odt_w_proof.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 6d8921e..a3d9f74 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -43,12 +43,15 @@ class OdtWProof(OdtWFormatted):
             text -- string to convert.
         
         Optional arguments:
-            quick: bool -- This argument is not used here.
+            quick: bool -- if True, do not start new paragraphs.
         
         Apply direct formatting instead of the emphasizing character styles.
         Overrides the superclass method.
         """
         if text:
+            if quick:
+                text = text.replace('\n', ' ')
+
             # Apply XML predefined entities.
             odtReplacements = [
                 ('&', '&amp;'),
-- 
2.43.0


From 436a66fe40c4661840a3ddaf0e2c27ad07870d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:48 +0000
Subject: [PATCH 60/83] fix: write the project language even if a project
 variable has no description or ID

---
 src/pywriter/yw/yw7_file.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 970300d..608b5f1 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -723,6 +723,12 @@ class Yw7File(File):
             ET.SubElement(xmlProjectvar, 'Desc').text = desc
             ET.SubElement(xmlProjectvar, 'Tags').text = tags
 
+        def set_description(xmlElement, desc):
+            xmlDesc = xmlElement.find('Desc')
+            if xmlDesc is None:
+                xmlDesc = ET.SubElement(xmlElement, 'Desc')
+            xmlDesc.text = desc
+
         def build_item_subtree(xmlItm, prjItm):
             if prjItm.title is not None:
                 ET.SubElement(xmlItm, 'Title').text = prjItm.title
@@ -1008,7 +1014,7 @@ class Yw7File(File):
             hasLanguageCode = False
             hasCountryCode = False
             for xmlProjectvar in xmlProjectvars.findall('PROJECTVAR'):
-                prjVars.append(xmlProjectvar.find('ID').text)
+                prjVars.append(xmlProjectvar.findtext('ID'))
                 title = xmlProjectvar.findtext('Title', '')
 
                 # Collect language codes.
@@ -1021,11 +1027,11 @@ class Yw7File(File):
 
                 # Get the document's locale.
                 elif title == 'Language':
-                    xmlProjectvar.find('Desc').text = self.novel.languageCode
+                    set_description(xmlProjectvar, self.novel.languageCode)
                     hasLanguageCode = True
 
                 elif title == 'Country':
-                    xmlProjectvar.find('Desc').text = self.novel.countryCode
+                    set_description(xmlProjectvar, self.novel.countryCode)
                     hasCountryCode = True
 
             # Define project variables for the missing locale.
-- 
2.43.0


From 8eea6eaaa6477471db3bf6c9d3286c0500c293e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:59 +0000
Subject: [PATCH 61/83] fix: do not define project variables again for
 languages with an equals sign

---
 src/pywriter/yw/yw7_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 608b5f1..4976236 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1020,7 +1020,7 @@ class Yw7File(File):
                 # Collect language codes.
                 if title.startswith('lang='):
                     try:
-                        __, langCode = title.split('=')
+                        __, langCode = title.split('=', 1)
                         languages.remove(langCode)
                     except:
                         pass
@@ -1408,7 +1408,7 @@ class Yw7File(File):
 
                     elif title is not None and title.startswith('lang='):
                         try:
-                            __, langCode = title.split('=')
+                            __, langCode = title.split('=', 1)
                             if self.novel.languages is None:
                                 self.novel.languages = []
                             self.novel.languages.append(langCode)
-- 
2.43.0


From 36ab6f4b581f5118967abb1ab916a7a383a8304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:51 +0000
Subject: [PATCH 62/83] fix: set the language in the settings of spreadsheets

---
 src/pywriter/odf/odf_file.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index f463cf0..9507267 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -132,9 +132,16 @@ class OdfFile(FileExport):
             raise Error(f'{_("Cannot write file")}: "mimetype"')
 
         #--- Generate settings.xml.
+        self.novel.check_locale()
+        localeMapping = dict(
+            Language=escape(self.novel.languageCode, {'"': '&quot;'}),
+            Country=escape(self.novel.countryCode, {'"': '&quot;'}),
+            )
+        template = Template(self._SETTINGS_XML)
+        text = template.safe_substitute(localeMapping)
         try:
             with open(f'{self._tempDir}/settings.xml', 'w', encoding='utf-8') as f:
-                f.write(self._SETTINGS_XML)
+                f.write(text)
         except:
             raise Error(f'{_("Cannot write file")}: "settings.xml"')
 
@@ -146,11 +153,6 @@ class OdfFile(FileExport):
             raise Error(f'{_("Cannot write file")}: "manifest.xml"')
 
         #--- Generate styles.xml.
-        self.novel.check_locale()
-        localeMapping = dict(
-            Language=escape(self.novel.languageCode, {'"': '&quot;'}),
-            Country=escape(self.novel.countryCode, {'"': '&quot;'}),
-            )
         template = Template(self._STYLES_XML)
         text = template.safe_substitute(localeMapping)
         try:
-- 
2.43.0


From 153e0f12aa2e6be772fc9e5e3cdb97815adb5b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:56 +0000
Subject: [PATCH 63/83] fix: make removing custom fields of scenes last when
 the project is saved

---
 src/pywriter/yw/yw7_purge.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pywriter/yw/yw7_purge.py b/src/pywriter/yw/yw7_purge.py
index c983e21..aed690a 100644
--- a/src/pywriter/yw/yw7_purge.py
+++ b/src/pywriter/yw/yw7_purge.py
@@ -35,6 +35,11 @@ def reset_custom_variables(prjFile):
             if prjFile.novel.scenes[scId].kwVar.get(field, None):
                 prjFile.novel.scenes[scId].kwVar[field] = ''
                 hasChanged = True
+        if prjFile.novel.scenes[scId].scnArcs or prjFile.novel.scenes[scId].scnMode:
+            hasChanged = True
+        # Otherwise, Yw7File.write() would get the custom fields from these instance variables.
+        prjFile.novel.scenes[scId].scnArcs = None
+        prjFile.novel.scenes[scId].scnMode = None
     for crId in prjFile.novel.characters:
         for field in prjFile.CRT_KWVAR:
             if prjFile.novel.characters[crId].kwVar.get(field, None):
-- 
2.43.0


From 2754f827c9df304eb730b57579d0fa70803cda2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:07 +0000
Subject: [PATCH 64/83] fix: save the custom fields of project notes

---
 src/pywriter/yw/yw7_file.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 4976236..e9d97a8 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -711,6 +711,14 @@ class Yw7File(File):
             if projectNote.desc is not None:
                 ET.SubElement(xmlProjectnote, 'Desc').text = projectNote.desc
 
+            #--- Write project note custom fields.
+            xmlProjectnoteFields = None
+            for field in self.PNT_KWVAR:
+                if projectNote.kwVar.get(field, None):
+                    if xmlProjectnoteFields is None:
+                        xmlProjectnoteFields = ET.SubElement(xmlProjectnote, 'Fields')
+                    ET.SubElement(xmlProjectnoteFields, field).text = projectNote.kwVar[field]
+
         def add_projectvariable(title, desc, tags):
             # Note:
             # prjVars, xmlProjectvars are caller's variables
-- 
2.43.0


From abfad47aa1b183bb05a271e85de9aba67c4f052f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:02 +0000
Subject: [PATCH 65/83] fix: Clear the time of a scene with an unspecific date

---
 src/pywriter/yw/yw7_file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index e9d97a8..b3585dd 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -452,6 +452,10 @@ class Yw7File(File):
                             xmlScene.find('Minute').text = minutes
                         except(AttributeError):
                             ET.SubElement(xmlScene, 'Minute').text = minutes
+                    elif prjScn.time is not None:
+                        for tag in ('Hour', 'Minute'):
+                            if xmlScene.find(tag) is not None:
+                                xmlScene.remove(xmlScene.find(tag))
 
             #--- Write scene duration.
             if prjScn.lastsDays is not None:
-- 
2.43.0


From 178f78c565c66b439c08bef635e0227bb4f68c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:26 +0000
Subject: [PATCH 66/83] fix: Open documents without running parts of their
 names as commands

---
 src/pywriter/file/doc_open.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/file/doc_open.py b/src/pywriter/file/doc_open.py
index 031b0d3..97a814e 100644
--- a/src/pywriter/file/doc_open.py
+++ b/src/pywriter/file/doc_open.py
@@ -5,6 +5,7 @@ For further information see https://github.com/peter88213/PyWriter
 Published under the MIT License (https://opensource.org/licenses/mit-license.php)
 """
 import os
+import subprocess
 from pywriter.pywriter_globals import *
 
 
@@ -15,11 +16,11 @@ def open_document(document):
         # Windows
     except:
         try:
-            os.system('xdg-open "%s"' % norm_path(document))
+            subprocess.call(['xdg-open', norm_path(document)])
             # Linux
         except:
             try:
-                os.system('open "%s"' % norm_path(document))
+                subprocess.call(['open', norm_path(document)])
                 # Mac
             except:
                 pass
-- 
2.43.0


From 196ba574b3b861cb65c95284a661beebf301d38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:17 +0000
Subject: [PATCH 67/83] fix: Find the modules to inline on systems other than
 Windows

---
 src/inliner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inliner.py b/src/inliner.py
index 1caa6fb..74897dd 100644
--- a/src/inliner.py
+++ b/src/inliner.py
@@ -62,7 +62,7 @@ def inline_module(file, package, packagePath, text, processedModules, copyPyWrit
                 if 'import' in line:
                     importModule = re.match(r'from (.+?) import.+', line)
                     if (importModule is not None) and (package in importModule.group(1)):
-                        packageName = re.sub(r'\.', r'\/', importModule.group(1))
+                        packageName = importModule.group(1).replace('.', '/')
                         moduleName = f'{packagePath}{packageName}'
                         if not (moduleName in processedModules):
                             processedModules.append(moduleName)
-- 
2.43.0


From 00f73ecee0bab64e414d80305993316c3d9503e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:14 +0000
Subject: [PATCH 68/83] fix: Do not escape double quotes twice in message
 templates

---
 src/pgettext.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pgettext.py b/src/pgettext.py
index fb7201b..fd7faea 100644
--- a/src/pgettext.py
+++ b/src/pgettext.py
@@ -16,6 +16,9 @@ msgPatterns = [re.compile(r'_\(\"(.+?)\"\)'),
               re.compile(r'_\(\'(.+?)\'\)'),
               ]
 
+# Double quotes, unless already escaped in the source code.
+escPattern = re.compile(r'\\.|"')
+
 potHeader = '''\
 # ${app} Dictionary
 # Copyright (C) 2022 Peter Triesberger
@@ -61,7 +64,7 @@ class PotFile:
         self.msgList = list(set(self.msgList))
         self.msgList.sort()
         for message in self.msgList:
-            message = message.replace('"', '\\"')
+            message = escPattern.sub(lambda match: '\\"' if match.group() == '"' else match.group(), message)
             entry = f'\nmsgid "{message}"\nmsgstr ""\n'
             potText += entry
         with open(self.filePath, 'w', encoding='utf-8') as f:
-- 
2.43.0


From 53d704c1ca82c16a7fb3759af7add9b9266ccc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:14 +0000
Subject: [PATCH 69/83] fix: Do not compile messages of other catalogs

---
 src/msgfmt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/msgfmt.py b/src/msgfmt.py
index 3f731e9..c005fca 100644
--- a/src/msgfmt.py
+++ b/src/msgfmt.py
@@ -101,6 +101,9 @@ def make(filename, outfile):
     STR = 2
     CTXT = 3
 
+    # Start with an empty catalog
+    MESSAGES.clear()
+
     # Compute .mo name from .po name and arguments
     if filename.endswith('.po'):
         infile = filename
-- 
2.43.0


From 3bb6ad7ddf399e1d777e6f582ae8890d478d8db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:31 +0000
Subject: [PATCH 70/83] fix: Compile each message with its own context and
 fuzzy flag

---
 src/msgfmt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/msgfmt.py b/src/msgfmt.py
index c005fca..653d7a7 100644
--- a/src/msgfmt.py
+++ b/src/msgfmt.py
@@ -146,12 +146,15 @@ def make(filename, outfile):
         if l.startswith('msgctxt'):
             if section == STR:
                 add(msgctxt, msgid, msgstr, fuzzy)
+                fuzzy = 0
             section = CTXT
             l = l[7:]
             msgctxt = b''
         elif l.startswith('msgid') and not l.startswith('msgid_plural'):
             if section == STR:
                 add(msgctxt, msgid, msgstr, fuzzy)
+                msgctxt = None
+                fuzzy = 0
                 if not msgid:
                     # See whether there is an encoding declaration
                     p = HeaderParser()
-- 
2.43.0


From e69eacca9cba66b20422d5db9e842192387743bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:18 +0000
Subject: [PATCH 71/83] fix: Decode the first message of a catalog like the
 others

---
 src/msgfmt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/msgfmt.py b/src/msgfmt.py
index 653d7a7..f58f903 100644
--- a/src/msgfmt.py
+++ b/src/msgfmt.py
@@ -160,6 +160,8 @@ def make(filename, outfile):
                     p = HeaderParser()
                     charset = p.parsestr(msgstr.decode(encoding)).get_content_charset()
                     if charset:
+                        # The current line is already decoded
+                        l = l.encode(encoding).decode(charset)
                         encoding = charset
             section = ID
             l = l[5:]
-- 
2.43.0


From d33f390bdb8227fbfa3fc73b3eca1f54cc7c9d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:10 +0000
Subject: [PATCH 72/83] fix: Drop scenes and languages that are no longer in
 the project when re-reading it

---
 src/pywriter/yw/yw7_file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index b3585dd..a122cb9 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1406,6 +1406,8 @@ class Yw7File(File):
 
     def _read_projectvars(self, root):
         """Read relevant project variables from the xml element tree."""
+        self.novel.languages = None
+        # This is necessary for re-reading.
         try:
             for xmlProjectvar in root.find('PROJECTVARS'):
                 if xmlProjectvar.find('Title') is not None:
@@ -1431,6 +1433,8 @@ class Yw7File(File):
 
     def _read_scenes(self, root):
         """ Read attributes at scene level from the xml element tree."""
+        self.novel.scenes = {}
+        # This is necessary for re-reading.
         for xmlScene in root.find('SCENES'):
             scId = xmlScene.find('ID').text
             self.novel.scenes[scId] = Scene()
-- 
2.43.0


From ca59dd837de416a490a15bec8e83f653eda9eb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:48 +0000
Subject: [PATCH 73/83] fix: keep document suffixes within project names in
 links

---
 src/pywriter/file/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/file/file.py b/src/pywriter/file/file.py
index 31d763c..b6795fa 100644
--- a/src/pywriter/file/file.py
+++ b/src/pywriter/file/file.py
@@ -102,7 +102,7 @@ class File(ABC):
             except:
                 head, tail = os.path.split(filePath)
             self.projectPath = quote(head.replace('\\', '/'), '/:')
-            self.projectName = quote(tail.replace(f'{suffix}{self.EXTENSION}', ''))
+            self.projectName = quote(''.join(tail.rsplit(f'{suffix}{self.EXTENSION}', 1)))
 
     def read(self):
         """Parse the file and get the instance variables.
-- 
2.43.0


From df566a98373ebaa828530d5a038f55a25b58943e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:15 +0000
Subject: [PATCH 74/83] fix: read headings of restored chapters completely

---
 src/pywriter/odt_r/odt_r_manuscript.py | 8 ++++++--
 src/pywriter/odt_r/odt_r_scenedesc.py  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index 96b0597..c5b1fe9 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -60,8 +60,7 @@ class OdtRManuscript(OdtRFormatted):
         if self._scId is not None:
             self._lines.append(data)
         elif self._chId is not None and self._chapterHeading:
-            if self.novel.chapters[self._chId].title is None:
-                self.novel.chapters[self._chId].title = data.strip()
+            self._lines.append(data)
 
     def handle_endtag(self, tag):
         """Recognize the end of the scene section and save data.
@@ -95,6 +94,11 @@ class OdtRManuscript(OdtRFormatted):
         elif self._chId is not None:
             if tag == 'div':
                 self._chId = None
+            elif tag in ('h1', 'h2'):
+                title = ''.join(self._lines).strip()
+                self._lines = []
+                if title and self.novel.chapters[self._chId].title is None:
+                    self.novel.chapters[self._chId].title = title
 
     def handle_starttag(self, tag, attrs):
         """Identify scenes and chapters.
diff --git a/src/pywriter/odt_r/odt_r_scenedesc.py b/src/pywriter/odt_r/odt_r_scenedesc.py
index ca7b5a8..ac9b3a2 100644
--- a/src/pywriter/odt_r/odt_r_scenedesc.py
+++ b/src/pywriter/odt_r/odt_r_scenedesc.py
@@ -31,8 +31,7 @@ class OdtRSceneDesc(OdtReader):
         if self._scId is not None:
             self._lines.append(data)
         elif self._chId is not None and self._chapterHeading:
-            if not self.novel.chapters[self._chId].title:
-                self.novel.chapters[self._chId].title = data.strip()
+            self._lines.append(data)
 
     def handle_endtag(self, tag):
         """Recognize the end of the scene section and save data.
@@ -63,4 +62,9 @@ class OdtRSceneDesc(OdtReader):
         elif self._chId is not None:
             if tag == 'div':
                 self._chId = None
+            elif tag in ('h1', 'h2'):
+                title = ''.join(self._lines).strip()
+                self._lines = []
+                if title and not self.novel.chapters[self._chId].title:
+                    self.novel.chapters[self._chId].title = title
 
-- 
2.43.0


From 4a64ddd870caa3027e00906368678d2bcd6f282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:11 +0000
Subject: [PATCH 75/83] fix: leave blanks and formatting of old scene headings
 out of the text

---
 src/pywriter/odt_r/odt_r_manuscript.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index c5b1fe9..ef109a1 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -70,6 +70,9 @@ class OdtRManuscript(OdtRFormatted):
 
         Overrides the superclass method.
         """
+        if self._skip_data and tag != 'h3':
+            return
+
         if self._scId is not None:
             if tag in ('p', 'blockquote'):
                 while self._languages:
@@ -109,6 +112,9 @@ class OdtRManuscript(OdtRFormatted):
         
         Extends the superclass method by processing inline chapter and scene dividers.
         """
+        if self._skip_data:
+            return
+
         super().handle_starttag(tag, attrs)
         if self._scId is not None:
             if tag == 'em':
-- 
2.43.0


From 534ac877fd69c084b3d25fb4e7cd5ede35ec971e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:10 +0000
Subject: [PATCH 76/83] fix: date documents in universal time, as their time
 zone mark says

---
 src/pywriter/odf/odf_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index 9507267..33c4189 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -10,7 +10,7 @@ import os
 import zipfile
 import tempfile
 from shutil import rmtree
-from datetime import datetime
+from datetime import datetime, timezone
 from string import Template
 from xml.sax.saxutils import escape
 from pywriter.pywriter_globals import *
@@ -166,7 +166,7 @@ class OdfFile(FileExport):
             Author=escape(self.novel.authorName or ''),
             Title=escape(self.novel.title or ''),
             Summary=escape(self.novel.desc or ''),
-            Datetime=datetime.today().replace(microsecond=0).isoformat(),
+            Datetime=datetime.now(timezone.utc).replace(microsecond=0, tzinfo=None).isoformat(),
         )
         template = Template(self._META_XML)
         text = template.safe_substitute(metaMapping)
-- 
2.43.0


From 8662bbf09c1b32b68f174296983341f7905582a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:59 +0000
Subject: [PATCH 77/83] fix: language tags end at a bracket, line break, or
 comment mark

---
 src/pywriter/model/novel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/model/novel.py b/src/pywriter/model/novel.py
index b9c5e08..4558b40 100644
--- a/src/pywriter/model/novel.py
+++ b/src/pywriter/model/novel.py
@@ -9,7 +9,7 @@ import re
 from pywriter.pywriter_globals import *
 from pywriter.model.basic_element import BasicElement
 
-LANGUAGE_TAG = re.compile(r'\[lang=(.*?)\]')
+LANGUAGE_TAG = re.compile(r'\[lang=([^\[\]/*\n]*)\]')
 
 
 class Novel(BasicElement):
-- 
2.43.0


From fd943018e12aa3e97ea69af1b0fa54b6c040fbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:59 +0000
Subject: [PATCH 78/83] fix: keep note marks inside comments from breaking the
 exported markup

---
 src/pywriter/odt_w/odt_w_export.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_export.py b/src/pywriter/odt_w/odt_w_export.py
index 581e361..20d71d5 100644
--- a/src/pywriter/odt_w/odt_w_export.py
+++ b/src/pywriter/odt_w/odt_w_export.py
@@ -87,8 +87,13 @@ class OdtWExport(OdtWFormatted):
     def _convert_notes(self, text):
         """Return text with the comments converted to annotations, footnotes, and endnotes."""
 
+        convert_comments = super()._convert_comments
+
         def replace_note(match):
             noteType = match.group(1)
+            if noteType is None:
+                return convert_comments(match.group(0))
+
             self._noteCounter += 1
             self._noteNumber += 1
             noteLabel = f'{self._noteNumber}'
@@ -108,8 +113,7 @@ class OdtWExport(OdtWFormatted):
                     f'text:label="{noteLabel}">*</text:note-citation><text:note-body>'
                     f'<text:p text:style-name="{noteStyle}">{text}</text:p></text:note-body></text:note>')
 
-        text = re.sub(r'\/\* *@([ef]n\**) (.*?)\*\/', replace_note, text, flags=re.DOTALL)
-        return super()._convert_comments(text)
+        return re.sub(r'\/\*(?: *@([ef]n\**) )?(.*?)\*\/', replace_note, text, flags=re.DOTALL)
 
     def _get_sceneMapping(self, scId, sceneNumber, wordsTotal, lettersTotal):
         """Return a mapping dictionary for a scene section.
-- 
2.43.0


From 978c87d2ba7b7f8fd523579bc212fe46cec094c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:42 +0000
Subject: [PATCH 79/83] fix: keep the removal of tags from making up new tags
 or comment marks

---
 src/pywriter/odt_w/odt_w_export.py    |  2 +-
 src/pywriter/odt_w/odt_w_formatted.py | 16 ++++++++++++----
 src/pywriter/odt_w/odt_w_proof.py     |  2 +-
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_export.py b/src/pywriter/odt_w/odt_w_export.py
index 20d71d5..5afbcfa 100644
--- a/src/pywriter/odt_w/odt_w_export.py
+++ b/src/pywriter/odt_w/odt_w_export.py
@@ -137,5 +137,5 @@ class OdtWExport(OdtWFormatted):
         """
         self._noteCounter = 0
         self._noteNumber = 0
-        return super()._get_text()
+        return super()._get_text().replace(self._GUARD, '')
 
diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 4eae081..d0c0430 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -32,6 +32,8 @@ class OdtWFormatted(OdtWriter):
   <office:text text:use-soft-page-breaks="true">
 
 '''
+    # Internal mark for removed tags: keeps the adjacent characters from making up a new tag or comment mark.
+    _GUARD = '\x1f'
 
     def write(self):
         """Determine the languages used in the document before writing.
@@ -78,9 +80,11 @@ class OdtWFormatted(OdtWriter):
 
             # Remove highlighting, alignment,
             # strikethrough, and underline tags.
-            text = re.sub(r'\[\/*[h|c|r|s|u]\d*\]', '', text)
+            text = re.sub(r'\[\/*[h|c|r|s|u]\d*\]', self._GUARD, text)
             if not quick:
                 text = self._convert_comments(text)
+            else:
+                text = text.replace(self._GUARD, '')
         else:
             text = ''
         return text
@@ -99,7 +103,7 @@ class OdtWFormatted(OdtWriter):
             return (f'<office:annotation><dc:creator>{creator}</dc:creator>'
                     f'<text:p>{match.group(1)}</text:p></office:annotation>')
 
-        return re.sub(r'\/\*(.*?)\*\/', get_annotation, text, flags=re.DOTALL)
+        return re.sub(r'\/\*(.*?)\*\/', get_annotation, text, flags=re.DOTALL).replace(self._GUARD, '')
 
     def _nest_markup(self, text, tags):
         """Return text with properly nested formatting tags that don't reach across linebreaks and comment marks.
@@ -115,9 +119,11 @@ class OdtWFormatted(OdtWriter):
 
         def close_tag():
             tag = openTags.pop()
+            while newText[-1] == self._GUARD and newText[-2] in (self._GUARD, f'[{tag}]'):
+                newText.pop()
             if newText[-1] == f'[{tag}]':
                 # There is nothing to format.
-                newText.pop()
+                newText[-1] = self._GUARD
             else:
                 newText.append(f'[/{tag}]')
             return tag
@@ -156,11 +162,13 @@ class OdtWFormatted(OdtWriter):
                     # The opening tag is missing.
                     newText.insert(lineStart, f'[{tag}]')
                     newText.append(f'[/{tag}]')
+                else:
+                    newText.append(self._GUARD)
             else:
                 open_tag(token[1:-1])
         while openTags:
             close_tag()
-        return ''.join(newText)
+        return re.sub(rf'{self._GUARD}+(?=\n)|(?<=\n){self._GUARD}+', '', ''.join(newText))
 
     def _get_fileHeaderMapping(self):
         """Return a mapping dictionary for the project section.
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index a3d9f74..01ee45d 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -87,7 +87,7 @@ class OdtWProof(OdtWFormatted):
 
             # Remove highlighting, alignment,
             # strikethrough, and underline tags.
-            text = re.sub(r'\[\/*[h|c|r|s|u]\d*\]', '', text)
+            text = re.sub(r'\[\/*[h|c|r|s|u]\d*\]', self._GUARD, text)
             text = self._convert_comments(text)
         else:
             text = ''
-- 
2.43.0


From 2600e17fe7c7774d288efc63eb99fb5799c707ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:44 +0000
Subject: [PATCH 80/83] fix: take line breaks within the paragraphs of the
 document file for blanks

---
 src/pywriter/odt_r/odt_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index fdff6f1..f47c626 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -4,6 +4,7 @@ Copyright (c) 2023 Peter Triesberger
 For further information see https://github.com/peter88213/
 Published under the MIT License (https://opensource.org/licenses/mit-license.php)
 """
+import re
 import zipfile
 from xml import sax
 import xml.etree.ElementTree as ET
@@ -120,7 +121,8 @@ class OdtParser(sax.ContentHandler):
         if not self._data:
             return
 
-        content = ''.join(self._data)
+        content = re.sub(r'[ \t]*[\r\n]+[ \t]*', ' ', ''.join(self._data))
+        # A line break in the file is just a blank.
         self._data = []
         if self._commentParagraphCount is not None:
             if self._commentParagraph:
-- 
2.43.0


From 1f6abcae9211ba30a5935b74976839d4137b36ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:28 +0000
Subject: [PATCH 81/83] fix: keep the text behind frames, and the texts of
 pictures out of the story

A paragraph in a frame ended the paragraph the frame is anchored in, and
the rest of it was lost. Titles and descriptions of pictures went into the text.
---
 src/pywriter/odt_r/odt_parser.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index f47c626..4ed2e05 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -40,6 +40,9 @@ class OdtParser(sax.ContentHandler):
         self._span = []
         self._style = None
         self._data = []
+        self._frameDepth = 0
+        self._frameEvents = []
+        # events to process after the paragraph the frames are anchored in
         self._client = client
 
     def feed_file(self, filePath):
@@ -113,6 +116,10 @@ class OdtParser(sax.ContentHandler):
         
         Overrides the xml.sax.ContentHandler method             
         """
+        if self._frameDepth > 0:
+            self._frameEvents.append((self.characters, content))
+            return
+
         self._data.append(content)
         # The SAX parser may split contiguous character data.
 
@@ -137,6 +144,11 @@ class OdtParser(sax.ContentHandler):
         
         Overrides the xml.sax.ContentHandler method     
         """
+        if self._frameDepth > 0:
+            self._frameDepth -= 1
+            self._frameEvents.append((self.endElement, name))
+            return
+
         self._flush_data()
         if name == 'text:p':
             if self._commentParagraphCount is not None:
@@ -168,12 +180,25 @@ class OdtParser(sax.ContentHandler):
             self._list = False
         elif name == 'style:style':
             self._style = None
+        if self._frameEvents and not self._paragraph and self._heading is None:
+            # Process the frames that are anchored in the paragraph.
+            isList, self._list = self._list, False
+            events, self._frameEvents = self._frameEvents, []
+            for handler, *args in events:
+                handler(*args)
+            self._list = isList
 
     def startElement(self, name, attrs):
         """Signals the start of an element in non-namespace mode.
         
         Overrides the xml.sax.ContentHandler method             
         """
+        if self._frameDepth > 0 or name.startswith('draw:') and (self._paragraph or self._heading is not None):
+            # The text of a frame does not belong to the paragraph.
+            self._frameDepth += 1
+            self._frameEvents.append((self.startElement, name, attrs))
+            return
+
         self._flush_data()
         xmlAttributes = {}
         for attribute in attrs.items():
-- 
2.43.0


From 380f44b4e25c29a289fca9dfe393d74ce00bd0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:28 +0000
Subject: [PATCH 82/83] fix: do not import passages that were deleted while
 recording changes

---
 src/pywriter/odt_r/odt_parser.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 4ed2e05..e164460 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -40,6 +40,7 @@ class OdtParser(sax.ContentHandler):
         self._span = []
         self._style = None
         self._data = []
+        self._deletedText = False
         self._frameDepth = 0
         self._frameEvents = []
         # events to process after the paragraph the frames are anchored in
@@ -149,6 +150,11 @@ class OdtParser(sax.ContentHandler):
             self._frameEvents.append((self.endElement, name))
             return
 
+        if self._deletedText:
+            self._data = []
+            self._deletedText = name != 'text:tracked-changes'
+            return
+
         self._flush_data()
         if name == 'text:p':
             if self._commentParagraphCount is not None:
@@ -199,6 +205,9 @@ class OdtParser(sax.ContentHandler):
             self._frameEvents.append((self.startElement, name, attrs))
             return
 
+        if self._deletedText:
+            return
+
         self._flush_data()
         xmlAttributes = {}
         for attribute in attrs.items():
@@ -247,6 +256,8 @@ class OdtParser(sax.ContentHandler):
         elif name == 'text:section':
             sectionId = xmlAttributes['text:name']
             self._client.handle_starttag('div', [('id', sectionId)])
+        elif name == 'text:tracked-changes':
+            self._deletedText = True
         elif name == 'office:annotation':
             self._commentParagraphCount = 0
             self._comment = ''
-- 
2.43.0


From 5a6dcb6452199af50c9861284e250d9e6371f559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:16 +0000
Subject: [PATCH 83/83] fix: keep the formatting of passages that are formatted
 twice, or set back to normal

---
 src/pywriter/odt_r/odt_parser.py | 76 +++++++++++++++++++++++---------
 1 file changed, 55 insertions(+), 21 deletions(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index e164460..cea6f84 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -37,7 +37,14 @@ class OdtParser(sax.ContentHandler):
         self._commentParagraph = False
         self._blockquote = False
         self._list = False
+        self._noEmTags = []
+        self._noStrongTags = []
+        # styles switching off italics or bold
         self._span = []
+        self._formats = []
+        # formatting of the current range: list of (tag, attributes)
+        self._openFormats = []
+        # formatting signaled to the client
         self._style = None
         self._data = []
         self._deletedText = False
@@ -135,9 +142,8 @@ class OdtParser(sax.ContentHandler):
         if self._commentParagraphCount is not None:
             if self._commentParagraph:
                 self._comment = f'{self._comment}{content}'
-        elif self._paragraph:
-            self._client.handle_data(content)
-        elif self._heading is not None:
+        elif self._paragraph or self._heading is not None:
+            self._update_formats()
             self._client.handle_data(content)
 
     def endElement(self, name):
@@ -162,6 +168,7 @@ class OdtParser(sax.ContentHandler):
             else:
                 while self._span:
                     self._close_span()
+                self._update_formats()
                 if self._blockquote:
                     self._client.handle_endtag('blockquote')
                     self._blockquote = False
@@ -177,9 +184,11 @@ class OdtParser(sax.ContentHandler):
         elif name == 'text:section':
             self._client.handle_endtag('div')
         elif name in ('office:annotation', 'text:note'):
+            self._update_formats()
             self._client.handle_comment(self._comment)
             self._commentParagraphCount = None
         elif name == 'text:h':
+            self._update_formats()
             self._client.handle_endtag(self._heading)
             self._heading = None
         elif name == 'text:list-item':
@@ -244,15 +253,12 @@ class OdtParser(sax.ContentHandler):
                 self._client.handle_starttag('p', param)
                 self._paragraph = True
             self._open_span(style)
-            if self._list and not self._blockquote and self._heading is None and style in self._languageTags:
-                self._span[-1].append('lang')
-                self._client.handle_starttag('lang', [('lang', self._languageTags[style])])
+            if self._list and not self._blockquote and self._heading is None:
+                self._set_language(style)
         elif name == 'text:span':
             if self._commentParagraphCount is None:
                 self._open_span(style)
-                if style in self._languageTags:
-                    self._span[-1].append('lang')
-                    self._client.handle_starttag('lang', [('lang', self._languageTags[style])])
+                self._set_language(style)
         elif name == 'text:section':
             sectionId = xmlAttributes['text:name']
             self._client.handle_starttag('div', [('id', sectionId)])
@@ -285,8 +291,12 @@ class OdtParser(sax.ContentHandler):
         elif name == 'style:text-properties':
             if xmlAttributes.get('fo:font-style', None) == 'italic':
                 self._emTags.append(self._style)
+            elif xmlAttributes.get('fo:font-style', None) == 'normal':
+                self._noEmTags.append(self._style)
             if xmlAttributes.get('fo:font-weight', None) == 'bold':
                 self._strongTags.append(self._style)
+            elif xmlAttributes.get('fo:font-weight', None) == 'normal':
+                self._noStrongTags.append(self._style)
             if xmlAttributes.get('fo:language', False):
                 lngCode = xmlAttributes['fo:language']
                 ctrCode = xmlAttributes.get('fo:country', 'none')
@@ -304,26 +314,50 @@ class OdtParser(sax.ContentHandler):
                 if self._commentParagraph:
                     self._comment = f'{self._comment}{" " * count}'
             else:
+                self._update_formats()
                 for __ in range(count):
                     self._client.handle_starttag('s', [()])
 
     def _close_span(self):
-        """Signal the end of the tags belonging to the innermost formatted range."""
-        for tag in reversed(self._span.pop()):
-            self._client.handle_endtag(tag)
+        """Return to the formatting outside the innermost range."""
+        self._formats = self._span.pop()
 
     def _open_span(self, style):
-        """Signal the beginning of the tags belonging to a formatted range.
+        """Set the formatting of a range.
+        
+        Positional arguments:
+            style: str -- name of the range's style.
+        """
+        self._span.append(self._formats)
+        self._formats = list(self._formats)
+        for tag, styles, noStyles in (
+                ('em', self._emTags, self._noEmTags),
+                ('strong', self._strongTags, self._noStrongTags)
+                ):
+            if style in styles:
+                if (tag, ()) not in self._formats:
+                    self._formats.append((tag, ()))
+            elif style in noStyles and (tag, ()) in self._formats:
+                self._formats.remove((tag, ()))
+
+    def _set_language(self, style):
+        """Set the language of a range.
         
         Positional arguments:
             style: str -- name of the range's style.
         """
-        tags = []
-        if style in self._emTags:
-            tags.append('em')
-        if style in self._strongTags:
-            tags.append('strong')
-        self._span.append(tags)
-        for tag in tags:
-            self._client.handle_starttag(tag, [()])
+        if style in self._languageTags:
+            language = ('lang', ('lang', self._languageTags[style]))
+            if [x for x in self._formats if x[0] == 'lang'][-1:] != [language]:
+                self._formats.append(language)
 
+    def _update_formats(self):
+        """Signal the changes of the formatting since the last text."""
+        unchanged = 0
+        while self._openFormats[:unchanged + 1] == self._formats[:unchanged + 1] and unchanged < len(self._formats):
+            unchanged += 1
+        for tag, attrs in reversed(self._openFormats[unchanged:]):
+            self._client.handle_endtag(tag)
+        for tag, attrs in self._formats[unchanged:]:
+            self._client.handle_starttag(tag, [attrs])
+        self._openFormats = self._formats
-- 
2.43.0


From 602c4efa92e149266e1957bed4b767d25f3856c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:01 +0000
Subject: [PATCH 01/54] fix: derive a prototype of timestamp attributes

---
 src/opyenxes/utils/XAttributeUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/utils/XAttributeUtils.py b/src/opyenxes/utils/XAttributeUtils.py
index 735630a..6eb42e1 100644
--- a/src/opyenxes/utils/XAttributeUtils.py
+++ b/src/opyenxes/utils/XAttributeUtils.py
@@ -107,7 +107,7 @@ class XAttributeUtils:
             elif isinstance(prototype, XAttributeDiscrete):
                 prototype.set_value(0)
             elif isinstance(prototype, XAttributeTimestamp):
-                prototype.set_value_millies(0)
+                prototype.set_value_millis(0)
             elif isinstance(prototype, XAttributeID):
                 prototype.set_value(XIDFactory().create_id())
             else:
-- 
2.43.0


From 81cd0e420f754d8d73e3cbf3d43ea610f9077fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:01 +0000
Subject: [PATCH 02/54] fix: clones own their attributes at every depth

---
 src/opyenxes/model/XAttributeBoolean.py    |  1 +
 src/opyenxes/model/XAttributeCollection.py | 17 +++++++++++++++++
 src/opyenxes/model/XAttributeContinuous.py |  1 +
 src/opyenxes/model/XAttributeDiscrete.py   |  1 +
 src/opyenxes/model/XAttributeID.py         |  1 +
 src/opyenxes/model/XAttributeLiteral.py    |  1 +
 src/opyenxes/model/XAttributeMap.py        |  2 +-
 src/opyenxes/model/XAttributeTimestamp.py  |  1 +
 src/opyenxes/model/XLog.py                 |  4 ++--
 9 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/model/XAttributeBoolean.py b/src/opyenxes/model/XAttributeBoolean.py
index 395973a..4a5e0c3 100644
--- a/src/opyenxes/model/XAttributeBoolean.py
+++ b/src/opyenxes/model/XAttributeBoolean.py
@@ -41,6 +41,7 @@ class XAttributeBoolean(XAttribute):
         """
         clone = XAttributeBoolean(self.get_key(), self.__value,
                                   self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeCollection.py b/src/opyenxes/model/XAttributeCollection.py
index 55c8661..9a393b9 100644
--- a/src/opyenxes/model/XAttributeCollection.py
+++ b/src/opyenxes/model/XAttributeCollection.py
@@ -34,6 +34,23 @@ class XAttributeCollection(XAttribute):
             return self.get_attributes().values()
         return self.__collection.copy()
 
+    def clone(self):
+        """Creates and returns a copy of this object.
+
+        :return: A clone of this instance.
+        :rtype: `XAttributeCollection`
+        """
+        clone = type(self)(self.get_key(), self.get_extension())
+        members = dict()
+        for attribute in self.get_collection():
+            members[id(attribute)] = attribute.clone()
+            clone.add_to_collection(members[id(attribute)])
+        for key, attribute in self.get_attributes().items():
+            if id(attribute) not in members:
+                members[id(attribute)] = attribute.clone()
+            clone.get_attributes()[key] = members[id(attribute)]
+        return clone
+
     def __str__(self):
         text = []
         sep = "["
diff --git a/src/opyenxes/model/XAttributeContinuous.py b/src/opyenxes/model/XAttributeContinuous.py
index b255d68..20cde5f 100644
--- a/src/opyenxes/model/XAttributeContinuous.py
+++ b/src/opyenxes/model/XAttributeContinuous.py
@@ -41,6 +41,7 @@ class XAttributeContinuous(XAttribute):
         """
         clone = XAttributeContinuous(self.get_key(), self.__value,
                                      self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeDiscrete.py b/src/opyenxes/model/XAttributeDiscrete.py
index 9c567af..7715fac 100644
--- a/src/opyenxes/model/XAttributeDiscrete.py
+++ b/src/opyenxes/model/XAttributeDiscrete.py
@@ -41,6 +41,7 @@ class XAttributeDiscrete(XAttribute):
         """
         clone = XAttributeDiscrete(self.get_key(), self.__value,
                                    self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeID.py b/src/opyenxes/model/XAttributeID.py
index c84fc45..5d33825 100644
--- a/src/opyenxes/model/XAttributeID.py
+++ b/src/opyenxes/model/XAttributeID.py
@@ -40,6 +40,7 @@ class XAttributeID(XAttribute):
         """
         clone = XAttributeID(self.get_key(), self.__value.clone(),
                              self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeLiteral.py b/src/opyenxes/model/XAttributeLiteral.py
index 1868c40..5f0fb55 100644
--- a/src/opyenxes/model/XAttributeLiteral.py
+++ b/src/opyenxes/model/XAttributeLiteral.py
@@ -41,6 +41,7 @@ class XAttributeLiteral(XAttribute):
         """
         clone = XAttributeLiteral(self.get_key(), self.__value,
                                   self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeMap.py b/src/opyenxes/model/XAttributeMap.py
index fa1b9e6..3dd4851 100644
--- a/src/opyenxes/model/XAttributeMap.py
+++ b/src/opyenxes/model/XAttributeMap.py
@@ -18,7 +18,7 @@ class XAttributeMap(dict):
         """
         clone = XAttributeMap()
         for key in self.keys():
-            clone[key] = self[key]
+            clone[key] = self[key].clone()
 
         return clone
 
diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index c937480..34ff9d2 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -54,6 +54,7 @@ class XAttributeTimestamp(XAttribute):
         """
         clone = XAttributeTimestamp(self.get_key(), self.__value,
                                     self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XLog.py b/src/opyenxes/model/XLog.py
index e44a343..ed6b83f 100644
--- a/src/opyenxes/model/XLog.py
+++ b/src/opyenxes/model/XLog.py
@@ -31,8 +31,8 @@ class XLog(XElement, list):
             clone.get_extensions().add(elem)
 
         clone.__classifiers = self.__classifiers.copy()
-        clone.__globalTraceAttributes = self.__globalTraceAttributes.copy()
-        clone.__globalEventAttributes = self.__globalEventAttributes.copy()
+        clone.__globalTraceAttributes = [elem.clone() for elem in self.__globalTraceAttributes]
+        clone.__globalEventAttributes = [elem.clone() for elem in self.__globalEventAttributes]
         clone.__features = self.__features.copy()
 
         for trace in self:
-- 
2.43.0


From f23bd45db1ff9933aa3612e0d42472addbc03571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:01 +0000
Subject: [PATCH 03/54] fix: elements report the extensions of their attributes

---
 src/opyenxes/model/XAttributable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/model/XAttributable.py b/src/opyenxes/model/XAttributable.py
index a269b6c..9084a04 100644
--- a/src/opyenxes/model/XAttributable.py
+++ b/src/opyenxes/model/XAttributable.py
@@ -24,8 +24,8 @@ class XAttributable:
         """
         extensions = set()
         for attribute in self.__attributes.values():
-            extension = attribute.get_extensions()
-            if len(extension) != 0:
+            extension = attribute.get_extension()
+            if extension is not None:
                 extensions.add(extension)
         return extensions
 
-- 
2.43.0


From 83ee38e42511f7003ad82b9c37a36fffa18fe6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:01 +0000
Subject: [PATCH 04/54] fix: equal traces have equal, stable hashes

---
 src/opyenxes/model/XTrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/model/XTrace.py b/src/opyenxes/model/XTrace.py
index e7df86f..5ec4f31 100644
--- a/src/opyenxes/model/XTrace.py
+++ b/src/opyenxes/model/XTrace.py
@@ -66,4 +66,4 @@ class XTrace(XElement, list):
         super(XTrace, self).append(p_object)
 
     def __hash__(self):
-        return hash(super(XTrace, self))
+        return hash(tuple(self))
-- 
2.43.0


From 0bd538d6fa170d114d0c924f3486c1e4e59271de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:01 +0000
Subject: [PATCH 05/54] fix: list attribute prototypes by type and by extension

---
 src/opyenxes/info/XAttributeInfo.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/info/XAttributeInfo.py b/src/opyenxes/info/XAttributeInfo.py
index 12d8c6c..38b7a2e 100644
--- a/src/opyenxes/info/XAttributeInfo.py
+++ b/src/opyenxes/info/XAttributeInfo.py
@@ -131,7 +131,7 @@ class XAttributeInfo:
         :return: A tuple of attribute prototypes registered for no extension.
         :rtype: tuple
         """
-        return self.__no_extension_set
+        return tuple(self.__no_extension_set)
 
     def get_keys_without_extension(self):
         """Returns keys of all registered attributes defined by no extension.
@@ -154,7 +154,13 @@ class XAttributeInfo:
             type_set = self.__type_map.get(XAttributeUtils.get_type(prototype))
             if type_set is None:
                 type_set = set()
-            self.__type_map[XAttributeUtils.get_type(prototype)] = type_set
+                self.__type_map[XAttributeUtils.get_type(prototype)] = type_set
+            type_set.add(prototype)
+            extension = attribute.get_extension()
+            if extension is None:
+                self.__no_extension_set.add(prototype)
+            else:
+                self.__extension_map.setdefault(extension, set()).add(prototype)
         else:
             self.__frequencies[attribute.get_key()] += 1
 
-- 
2.43.0


From ef876ceb8897262f0677adeadf52acd23e142414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:25 +0000
Subject: [PATCH 06/54] fix: timestamps from and to epoch milliseconds and text
 keep instant and offset

---
 src/opyenxes/model/XAttributeTimestamp.py | 24 ++++++-----------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index 34ff9d2..ef38574 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -1,7 +1,6 @@
 from opyenxes.model.XAttribute import XAttribute
-from datetime import datetime
-import platform
-import time
+from datetime import datetime, timedelta, timezone
+import calendar
 
 
 class XAttributeTimestamp(XAttribute):
@@ -22,7 +21,7 @@ class XAttributeTimestamp(XAttribute):
         if isinstance(value, datetime):
             self.__value = value
         elif isinstance(value, int):
-            self.__value = datetime.fromtimestamp(self.__timestamp(value))
+            self.set_value_millis(value)
 
     def get_value(self):
         """Retrieves the datetime value of this attribute
@@ -33,7 +32,7 @@ class XAttributeTimestamp(XAttribute):
         return self.__value
 
     def get_value_millis(self):
-        return time.mktime(self.__value.timetuple()) * 1000
+        return calendar.timegm(self.__value.utctimetuple()) * 1000 + self.__value.microsecond // 1000
 
     def set_value(self, value):
         """Assigns the string value or datetime value of this attribute.
@@ -44,7 +43,7 @@ class XAttributeTimestamp(XAttribute):
         self.__value = value
 
     def set_value_millis(self, value):
-        self.__value = datetime.fromtimestamp(value / 1000.0)
+        self.__value = datetime.fromtimestamp(0, timezone.utc) + timedelta(milliseconds=value)
 
     def clone(self):
         """Creates and returns a copy of this object.
@@ -96,7 +95,7 @@ class XAttributeTimestamp(XAttribute):
             self.__value.minute,
             self.__value.second,
             self.__value.microsecond // 1000,
-            self.__value.tzname().replace("UTC", "").replace("+00:00", "Z").replace("-00:00", "Z"))
+            self.__value.isoformat()[-6:].replace("+00:00", "Z"))
 
     def __lt__(self, other):
         return True if self.compare_to(other) < 0 else False
@@ -120,14 +119,3 @@ class XAttributeTimestamp(XAttribute):
 
     def __ge__(self, other):
         return True if self.compare_to(other) >= 0 else False
-
-    def __timestamp(self, value):
-        """ Windows timestamp workaround
-
-        Creating the timestamp will fail if less than 86400 on Windows with
-        Python 3.6.
-        """
-        value = value / 1000.0
-        if (platform.system() == 'Windows') and (value < 86400):
-            return 86400
-        return value
-- 
2.43.0


From 2e980365196ae926517b160dcd8ae8ae22c4986c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:25 +0000
Subject: [PATCH 07/54] fix: accept date-times with more than six fraction
 digits

---
 src/opyenxes/utils/XsDateTimeConversion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/opyenxes/utils/XsDateTimeConversion.py b/src/opyenxes/utils/XsDateTimeConversion.py
index 8011840..8ab1f42 100644
--- a/src/opyenxes/utils/XsDateTimeConversion.py
+++ b/src/opyenxes/utils/XsDateTimeConversion.py
@@ -35,6 +35,9 @@ def parse_date_time(date_time):
             minute = 0
 
         if '.' in value:
+            whole, fraction = value.split(".")
+            if fraction.isdigit():
+                value = whole + "." + fraction[:6]
             time = datetime.strptime(value, "%Y-%m-%dT%H:%M:%S.%f")
         else:
             time = datetime.strptime(value, "%Y-%m-%dT%H:%M:%S")
-- 
2.43.0


From 432bf3ee3a4e86f6fdeff3c719da24e37f907461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:15 +0000
Subject: [PATCH 08/54] fix: skip an unreadable date without disturbing the
 rest of the document

---
 src/opyenxes/data_in/XesXmlParser.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index df2fc6f..a0a7834 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -169,9 +169,8 @@ class XesXmlParser:
 
                 elif tag_name == "date":
                     var15 = parse_date_time(value)
-                    if var15 is None:
-                        return
-                    attribute = XesXmlParser().factory.create_attribute_timestamp(name, var15, keys_list)
+                    if var15 is not None:
+                        attribute = XesXmlParser().factory.create_attribute_timestamp(name, var15, keys_list)
 
                 elif tag_name == "int":
                     attribute = XesXmlParser().factory.create_attribute_discrete(name, int(value), keys_list)
@@ -192,9 +191,9 @@ class XesXmlParser:
                 elif tag_name == "container":
                     attribute = XesXmlParser().factory.create_attribute_container(name, keys_list)
 
-                if attribute is not None:
-                    self.__attribute_stack.append(attribute)
-                    self.__attributable_stack.append(attribute)
+                # An unreadable attribute is None: it is skipped when it ends
+                self.__attribute_stack.append(attribute)
+                self.__attributable_stack.append(attribute)
 
         def endElement(self, local_name):
             """ Overrides endElement in class ContentHandler
@@ -226,7 +225,9 @@ class XesXmlParser:
                 i = self.__attribute_stack.pop()
                 self.__attributable_stack.pop()
 
-                if self.__globals is not None:
+                if i is None or self.__attributable_stack[-1] is None:
+                    pass
+                elif self.__globals is not None:
 
                     self.__globals.append(i)
                 else:
-- 
2.43.0


From 5805a89d699bc184a54706befcfc99fd41f1a11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:15 +0000
Subject: [PATCH 09/54] fix: keep nested attributes of global attributes nested

---
 src/opyenxes/data_in/XesXmlParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index a0a7834..f48dae3 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -227,7 +227,7 @@ class XesXmlParser:
 
                 if i is None or self.__attributable_stack[-1] is None:
                     pass
-                elif self.__globals is not None:
+                elif self.__globals is not None and len(self.__attribute_stack) == 0:
 
                     self.__globals.append(i)
                 else:
-- 
2.43.0


From 02287c876fc2258c35b49dba28d6e622f70e88b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:15 +0000
Subject: [PATCH 10/54] fix: read boolean value 1 as true

---
 src/opyenxes/data_in/XesXmlParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index f48dae3..fc065ac 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -179,7 +179,7 @@ class XesXmlParser:
                     attribute = XesXmlParser().factory.create_attribute_continuous(name, float(value), keys_list)
 
                 elif tag_name == "boolean":
-                    var16 = True if value.lower() == "true" else False
+                    var16 = True if value.strip().lower() in ("true", "1") else False
                     attribute = XesXmlParser().factory.create_attribute_boolean(name, var16, keys_list)
 
                 elif tag_name == "id":
-- 
2.43.0


From b603e615e76c6bc4b83890292a6c472be791a611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:15 +0000
Subject: [PATCH 11/54] fix: parsers build the model with the factory they were
 given

---
 src/opyenxes/data_in/XMxmlParser.py  | 39 +++++++++++++++--------
 src/opyenxes/data_in/XesXmlParser.py | 47 ++++++++++++++++++----------
 2 files changed, 56 insertions(+), 30 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index cdb48e2..bf01382 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -24,10 +24,22 @@ class XMxmlParser:
                         XEventResourceClassifier()]
 
     def __init__(self, factory=None):
-        if factory:
-            self.factory = factory
-        else:
-            self.factory = XFactoryRegistry().current_default()
+        self.__factory = factory
+
+    @property
+    def factory(self):
+        """The factory given to this parser, else the current default factory.
+
+        :return: The XES model factory used to build the model.
+        :rtype: `XFactory`
+        """
+        if self.__factory is not None:
+            return self.__factory
+        return XFactoryRegistry().current_default()
+
+    @factory.setter
+    def factory(self, factory):
+        self.__factory = factory
 
     def can_parse(self, file):
         """Checks whether this parser can handle the given file.
@@ -51,7 +63,7 @@ class XMxmlParser:
         :return: The parsed list of logs.
         :rtype: list[`XLog`]
         """
-        handler = XMxmlParser.MxmlHandler()
+        handler = XMxmlParser.MxmlHandler(self.factory)
 
         xml_parse(file, handler)
 
@@ -77,8 +89,9 @@ class XMxmlParser:
         """SAX handler class for XES in XML representation.
 
         """
-        def __init__(self):
+        def __init__(self, factory=None):
             super().__init__()
+            self.__factory = factory if factory is not None else XFactoryRegistry().current_default()
             self.__buffer = list()
             self.__logs = list()
             self.__currentProcess = None
@@ -115,13 +128,13 @@ class XMxmlParser:
                 if tag_name == "Source":
                     self.__sourceOpen = True
                     description_string = attributes.get("program")
-                    self.__sourceAttribute = XMxmlParser().factory.create_attribute_literal("source", description_string, None)
+                    self.__sourceAttribute = self.__factory.create_attribute_literal("source", description_string, None)
                     self.__add_model_reference__(attributes, self.__sourceAttribute)
                 elif tag_name == "Process":
                     description_string = attributes.get("id")
                     description = attributes.get("description")
 
-                    self.__currentProcess = XMxmlParser().factory.create_log()
+                    self.__currentProcess = self.__factory.create_log()
                     self.__currentProcess.get_extensions().add(XConceptExtension())
                     self.__currentProcess.get_extensions().add(XOrganizationalExtension())
                     self.__currentProcess.get_extensions().add(XLifecycleExtension())
@@ -135,13 +148,13 @@ class XMxmlParser:
 
                     if description and len(description.lower()) > 0:
 
-                        description1 = XMxmlParser().factory.create_attribute_literal("description", description, None)
+                        description1 = self.__factory.create_attribute_literal("description", description, None)
                         self.__currentProcess.get_attributes()[description1.get_key()] = description1
 
                     self.__add_model_reference__(attributes, self.__currentProcess)
 
                 elif tag_name == "ProcessInstance":
-                    self.__currentInstance = XMxmlParser().factory.create_trace()
+                    self.__currentInstance = self.__factory.create_trace()
                     name = attributes.get("id")
                     if name is None:
                         name = "None"
@@ -150,16 +163,16 @@ class XMxmlParser:
                     description_string = attributes.get("description")
 
                     if description_string and len(description_string.strip()) > 0:
-                        description2 = XMxmlParser().factory.create_attribute_literal("description", description_string, None)
+                        description2 = self.__factory.create_attribute_literal("description", description_string, None)
                         self.__currentInstance.get_attributes()[description2.get_key()] = description2
 
                     self.__add_model_reference__(attributes, self.__currentInstance)
 
                 elif tag_name == "AuditTrailEntry":
-                    self.__entry = XMxmlParser().factory.create_event()
+                    self.__entry = self.__factory.create_event()
 
                 elif tag_name == "Attribute":
-                    self.__genericAttribute = XMxmlParser().factory.create_attribute_literal(attributes.get("name").strip(), "DEFAULT_VALUE", None)
+                    self.__genericAttribute = self.__factory.create_attribute_literal(attributes.get("name").strip(), "DEFAULT_VALUE", None)
                     self.__add_model_reference__(attributes, self.__genericAttribute)
 
                 elif tag_name == "EventType":
diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index fc065ac..cf1748e 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -18,10 +18,22 @@ class XesXmlParser:
     :type factory: `XFactory`
     """
     def __init__(self, factory=None):
-        if factory:
-            self.factory = factory
-        else:
-            self.factory = XFactoryRegistry().current_default()
+        self.__factory = factory
+
+    @property
+    def factory(self):
+        """The factory given to this parser, else the current default factory.
+
+        :return: The XES model factory used to build the model.
+        :rtype: `XFactory`
+        """
+        if self.__factory is not None:
+            return self.__factory
+        return XFactoryRegistry().current_default()
+
+    @factory.setter
+    def factory(self, factory):
+        self.__factory = factory
 
     def can_parse(self, file):
         """Checks whether this parser can handle the given file.
@@ -43,7 +55,7 @@ class XesXmlParser:
         :return: The parsed list of logs.
         :rtype: list[`XLog`]
         """
-        handler = XesXmlParser.XesXmlHandler()
+        handler = XesXmlParser.XesXmlHandler(self.factory)
 
         xml_parse(file, handler)
 
@@ -71,8 +83,9 @@ class XesXmlParser:
         """SAX handler class for XES in XML representation.
 
         """
-        def __init__(self):
+        def __init__(self, factory=None):
             super().__init__()
+            self.__factory = factory if factory is not None else XFactoryRegistry().current_default()
             self.__log = None
             self.__trace = None
             self.__event = None
@@ -102,13 +115,13 @@ class XesXmlParser:
             tag_name = element_name.lower()
             if tag_name not in ["string", "date", "int", "float", "boolean", "id", "list", "container"]:
                 if tag_name == "event":
-                    self.__event = XesXmlParser().factory.create_event()
+                    self.__event = self.__factory.create_event()
                     self.__attributable_stack.append(self.__event)
                 elif tag_name == "trace":
-                    self.__trace = XesXmlParser().factory.create_trace()
+                    self.__trace = self.__factory.create_trace()
                     self.__attributable_stack.append(self.__trace)
                 elif tag_name == "log":
-                    self.__log = XesXmlParser().factory.create_log()
+                    self.__log = self.__factory.create_log()
                     for attr_name in attributes.getNames():
                         if attr_name.startswith('xes.') or \
                         attr_name.startswith('openxes.'):
@@ -165,31 +178,31 @@ class XesXmlParser:
                 attribute = None
 
                 if tag_name == "string":
-                    attribute = XesXmlParser().factory.create_attribute_literal(name, value, keys_list)
+                    attribute = self.__factory.create_attribute_literal(name, value, keys_list)
 
                 elif tag_name == "date":
                     var15 = parse_date_time(value)
                     if var15 is not None:
-                        attribute = XesXmlParser().factory.create_attribute_timestamp(name, var15, keys_list)
+                        attribute = self.__factory.create_attribute_timestamp(name, var15, keys_list)
 
                 elif tag_name == "int":
-                    attribute = XesXmlParser().factory.create_attribute_discrete(name, int(value), keys_list)
+                    attribute = self.__factory.create_attribute_discrete(name, int(value), keys_list)
 
                 elif tag_name == "float":
-                    attribute = XesXmlParser().factory.create_attribute_continuous(name, float(value), keys_list)
+                    attribute = self.__factory.create_attribute_continuous(name, float(value), keys_list)
 
                 elif tag_name == "boolean":
                     var16 = True if value.strip().lower() in ("true", "1") else False
-                    attribute = XesXmlParser().factory.create_attribute_boolean(name, var16, keys_list)
+                    attribute = self.__factory.create_attribute_boolean(name, var16, keys_list)
 
                 elif tag_name == "id":
-                    attribute = XesXmlParser().factory.create_attribute_id(name, XID.parse(value), keys_list)
+                    attribute = self.__factory.create_attribute_id(name, XID.parse(value), keys_list)
 
                 elif tag_name == "list":
-                    attribute = XesXmlParser().factory.create_attribute_list(name, keys_list)
+                    attribute = self.__factory.create_attribute_list(name, keys_list)
 
                 elif tag_name == "container":
-                    attribute = XesXmlParser().factory.create_attribute_container(name, keys_list)
+                    attribute = self.__factory.create_attribute_container(name, keys_list)
 
                 # An unreadable attribute is None: it is skipped when it ends
                 self.__attribute_stack.append(attribute)
-- 
2.43.0


From 00a2ff702993a27a6f481ab0b0cea72d80b36227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:15 +0000
Subject: [PATCH 12/54] fix: match file suffixes ignoring the case

---
 src/opyenxes/data_in/XMxmlParser.py  | 2 +-
 src/opyenxes/data_in/XesXmlParser.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index bf01382..6d4eaa8 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -82,7 +82,7 @@ class XMxmlParser:
         """
         i = len(name) - len(suffix)
         if i > 0:
-            return suffix in name[i:]
+            return suffix.lower() in name[i:].lower()
         return False
 
     class MxmlHandler(ContentHandler):
diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index cf1748e..9ad3e95 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -76,7 +76,7 @@ class XesXmlParser:
         i = len(name) - len(suffix)
 
         if i > 0:
-            return suffix in name[i:]
+            return suffix.lower() in name[i:].lower()
         return False
 
     class XesXmlHandler(ContentHandler):
-- 
2.43.0


From c0537b3c6c008e1dec4e942393ae9b7d26a55daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:15 +0000
Subject: [PATCH 13/54] fix: accept the .xez suffix that the compressed writer
 advertises

---
 src/opyenxes/data_in/XesXmlGZIPParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XesXmlGZIPParser.py b/src/opyenxes/data_in/XesXmlGZIPParser.py
index 4a93e55..4c8f180 100644
--- a/src/opyenxes/data_in/XesXmlGZIPParser.py
+++ b/src/opyenxes/data_in/XesXmlGZIPParser.py
@@ -20,7 +20,7 @@ class XesXmlGZIPParser(XesXmlParser):
         :return: Whether this parser can handle the given file.
         :rtype: bool
         """
-        return super().ends_with_ignore_case(file, ".xes.gz")
+        return self.ends_with_ignore_case(file, ".xes.gz") or self.ends_with_ignore_case(file, ".xez")
 
     def parse(self, file):
         """Parses a log from the given input stream, which is supposed to
-- 
2.43.0


From 3891b67dd995eb7721d28dd2a686683e756d81f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:28 +0000
Subject: [PATCH 14/54] fix: classifier keys are separated by blanks, quotes
 keep blanks inside a key

---
 src/opyenxes/utils/XTokenHelper.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/utils/XTokenHelper.py b/src/opyenxes/utils/XTokenHelper.py
index 9559550..1330e45 100644
--- a/src/opyenxes/utils/XTokenHelper.py
+++ b/src/opyenxes/utils/XTokenHelper.py
@@ -1,11 +1,15 @@
+import re
+
+
 class XTokenHelper:
 
     @staticmethod
     def extract_tokens(token_string):
-        keys = list(map(lambda elem: elem.strip(), token_string.split("'")))
+        keys = [quoted or plain for quoted, plain in re.findall(r"'(.*?)'(?=\s|$)|(\S+)", token_string, re.DOTALL)]
+        keys = list(map(lambda elem: elem.strip(), keys))
         return list(filter(lambda key: key != '', keys))
 
     @staticmethod
     def format_token(token):
-        aux = list(map(lambda elem: "'{}'".format(elem) if len(elem.split(" ")) > 1 else elem, token))
+        aux = list(map(lambda elem: "'{}'".format(elem) if re.search(r"\s", elem) else elem, token))
         return " ".join(filter(lambda elem: elem.replace(" ", "") != "", aux))
-- 
2.43.0


From f964966b18c3ba85b2c6db815d1724f2a5904582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:28 +0000
Subject: [PATCH 15/54] fix: a missing attribute keeps its place in a class
 identity

---
 src/opyenxes/classification/XEventAttributeClassifier.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opyenxes/classification/XEventAttributeClassifier.py b/src/opyenxes/classification/XEventAttributeClassifier.py
index 03fe255..4d73e00 100644
--- a/src/opyenxes/classification/XEventAttributeClassifier.py
+++ b/src/opyenxes/classification/XEventAttributeClassifier.py
@@ -48,6 +48,8 @@ class XEventAttributeClassifier:
                 attribute = event.get_attributes().get(key)
                 if attribute:
                     identity.append(str(attribute))
+                else:
+                    identity.append("")
 
             return "&&".join(identity)
 
-- 
2.43.0


From b8b72b60d4fe70492d2f9ccef075466107aaa872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:28 +0000
Subject: [PATCH 16/54] fix: store an assigned activity instance under
 concept:instance

---
 src/opyenxes/extension/std/XConceptExtension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XConceptExtension.py b/src/opyenxes/extension/std/XConceptExtension.py
index 2213854..23508e7 100644
--- a/src/opyenxes/extension/std/XConceptExtension.py
+++ b/src/opyenxes/extension/std/XConceptExtension.py
@@ -89,4 +89,4 @@ class XConceptExtension(XExtension, metaclass=XConceptExtensionMetaclass):
         if instance is not None and len(instance.strip()) > 0:
             attr = self.ATTR_INSTANCE.clone()
             attr.set_value(instance)
-            event.get_attributes()["concept:name"] = attr
+            event.get_attributes()["concept:instance"] = attr
-- 
2.43.0


From 158107f37a1ea961bbfc97f22971436df5c5f215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:53 +0000
Subject: [PATCH 17/54] fix: cost currency and cost types are stored under
 their own keys and values

---
 src/opyenxes/extension/std/XCostExtension.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/extension/std/XCostExtension.py b/src/opyenxes/extension/std/XCostExtension.py
index c20b93f..e911da3 100644
--- a/src/opyenxes/extension/std/XCostExtension.py
+++ b/src/opyenxes/extension/std/XCostExtension.py
@@ -180,7 +180,7 @@ class XCostExtension(XExtension, metaclass=XCostExtensionMetaclass):
         if currency is not None and len(currency.strip()) > 0:
             attr = self.ATTR_CURRENCY.clone()
             attr.set_value(currency)
-            element.get_attributes()["concept:name"] = attr
+            element.get_attributes()["cost:currency"] = attr
 
     @staticmethod
     def extract_amount(attribute):
@@ -477,7 +477,7 @@ class XCostExtension(XExtension, metaclass=XCostExtensionMetaclass):
         """
         if type_ is not None and len(type_.strip()) > 0:
             attr = self.ATTR_TYPE.clone()
-            attr.set_value(type)
+            attr.set_value(type_)
             attribute.get_attributes()["cost:type"] = attr
 
     @staticmethod
@@ -491,7 +491,7 @@ class XCostExtension(XExtension, metaclass=XCostExtensionMetaclass):
         :param types: Dictionary with keys to cost types which are to be assigned.
         :type types: dict(list[str]: str)
         """
-        XCostType().assign_nested_values(element, types)
+        XCostType().assign_values(element, types)
 
     @staticmethod
     def assign_nested_types(element, types):
-- 
2.43.0


From e68b1be5830d3a990ddb16b009cb6421355de500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:53 +0000
Subject: [PATCH 18/54] fix: micro parent ids can be assigned and read, an
 unset length reads as -1

---
 src/opyenxes/extension/std/XMicroExtension.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/extension/std/XMicroExtension.py b/src/opyenxes/extension/std/XMicroExtension.py
index b801389..f0fa250 100644
--- a/src/opyenxes/extension/std/XMicroExtension.py
+++ b/src/opyenxes/extension/std/XMicroExtension.py
@@ -77,7 +77,7 @@ class XMicroExtension(XExtension, metaclass=XMicroExtensionMetaclass):
         :return: The requested event parent Id, null if not set.
         :rtype: XID
         """
-        attribute = event.get_attributes()["micro:parentId"]
+        attribute = event.get_attributes().get("micro:parentId")
         if attribute:
             return attribute.get_value()
         return None
@@ -93,7 +93,7 @@ class XMicroExtension(XExtension, metaclass=XMicroExtensionMetaclass):
         """
         if parent_id is not None:
             attr = self.ATTR_PID.clone()
-            attr.setValue(parent_id)
+            attr.set_value(parent_id)
             event.get_attributes()["micro:parentId"] = attr
         else:
             if "micro:parentId" in event.get_attributes():
@@ -124,7 +124,7 @@ class XMicroExtension(XExtension, metaclass=XMicroExtensionMetaclass):
         attribute = event.get_attributes().get("micro:length")
         if attribute:
             return attribute.get_value()
-        return None
+        return -1
 
     def assign_length(self, event, length):
         """Assigns any event its state number of children, as defined by this
-- 
2.43.0


From 935e65456c67cb2cc67fe7ebab9a18125fceae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:53 +0000
Subject: [PATCH 19/54] fix: model references are read back one by one and in
 their own letter case

---
 src/opyenxes/extension/std/XSemanticExtension.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/opyenxes/extension/std/XSemanticExtension.py b/src/opyenxes/extension/std/XSemanticExtension.py
index f652df3..84ae018 100644
--- a/src/opyenxes/extension/std/XSemanticExtension.py
+++ b/src/opyenxes/extension/std/XSemanticExtension.py
@@ -44,11 +44,11 @@ class XSemanticExtension(XExtension, metaclass=XSemanticExtensionMetaclass):
         model_references = list()
         model_reference_attribute = target.get_attributes().get("semantic:modelReference")
         if model_reference_attribute:
-            ref_string = model_reference_attribute.get_value().lower()
-            aux = ref_string.split("\\s")
+            ref_string = model_reference_attribute.get_value()
+            aux = ref_string.split()
             for i in range(len(aux)):
                 reference = aux[i]
-                model_references.append(reference.lower())
+                model_references.append(reference)
 
         return model_references
 
@@ -87,7 +87,7 @@ class XSemanticExtension(XExtension, metaclass=XSemanticExtensionMetaclass):
             sb.append(" ")
 
         aux = "".join(sb)
-        if len(aux.lower()) > 0:
+        if len(aux.strip()) > 0:
             attr = self.ATTR_MODELREFERENCE.clone()
             attr.set_value(aux)
             target.get_attributes()["semantic:modelReference"] = attr
@@ -109,7 +109,7 @@ class XSemanticExtension(XExtension, metaclass=XSemanticExtensionMetaclass):
             sb.append(" ")
 
         aux = "".join(sb)
-        if len(aux.lower()) > 0:
+        if len(aux.strip()) > 0:
             attr = self.ATTR_MODELREFERENCE.clone()
             attr.set_value(aux)
             target.get_attributes()["semantic:modelReference"] = attr
-- 
2.43.0


From 822385ee6696b6951598db99f098d5afe1963a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:53 +0000
Subject: [PATCH 20/54] fix: an assigned event timestamp keeps its instant,
 offset and precision

---
 src/opyenxes/extension/std/XTimeExtension.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/opyenxes/extension/std/XTimeExtension.py b/src/opyenxes/extension/std/XTimeExtension.py
index 302a635..7b8961a 100644
--- a/src/opyenxes/extension/std/XTimeExtension.py
+++ b/src/opyenxes/extension/std/XTimeExtension.py
@@ -3,7 +3,6 @@ from urllib.parse import urlparse
 from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
 from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
 from opyenxes.utils.SingletonClassGenerator import XTimeExtensionMetaclass
-import time
 from datetime import datetime
 
 
@@ -41,7 +40,7 @@ class XTimeExtension(XExtension, metaclass=XTimeExtensionMetaclass):
         attribute = event.get_attributes().get("time:timestamp")
         if attribute:
             return attribute.get_value()
-        return -1
+        return None
 
     def assign_timestamp(self, event, date):
         """Assigns to a given event its timestamp.
@@ -52,11 +51,9 @@ class XTimeExtension(XExtension, metaclass=XTimeExtensionMetaclass):
             milliseconds in UNIX time..
         :type date: datetime or int
         """
+        attr = self.ATTR_TIMESTAMP.clone()
         if isinstance(date, datetime):
-            aux = time.mktime(date.timetuple()) * 1000
+            attr.set_value(date)
         else:
-            aux = date
-
-        attr = self.ATTR_TIMESTAMP.clone()
-        attr.set_value_millis(aux)
+            attr.set_value_millis(date)
         event.get_attributes()["time:timestamp"] = attr
-- 
2.43.0


From 1e6e4fb57af98f71fd32fecda2bb4da347f59e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:53 +0000
Subject: [PATCH 21/54] fix: the extended event view keeps resource, role and
 group as assigned

---
 src/opyenxes/extension/std/XExtendedEvent.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/extension/std/XExtendedEvent.py b/src/opyenxes/extension/std/XExtendedEvent.py
index 7217235..607adb1 100644
--- a/src/opyenxes/extension/std/XExtendedEvent.py
+++ b/src/opyenxes/extension/std/XExtendedEvent.py
@@ -101,7 +101,7 @@ class XExtendedEvent:
         :param resource: Resource string.
         :type resource: str
         """
-        XOrganizationalExtension().assign_resource(self.__original, resource.lower())
+        XOrganizationalExtension().assign_resource(self.__original, resource)
 
     def get_role(self):
         """Returns the role of the event, as defined by the Organizational
@@ -119,7 +119,7 @@ class XExtendedEvent:
         :param role: Role string.
         :type role: str
         """
-        XOrganizationalExtension().assign_role(self.__original, role.lower())
+        XOrganizationalExtension().assign_role(self.__original, role)
 
     def get_group(self):
         """Returns the group of the event, as defined by the Organizational
@@ -137,7 +137,7 @@ class XExtendedEvent:
         :param group: Group string.
         :type group: str
         """
-        XOrganizationalExtension().assign_group(self.__original, group.lower())
+        XOrganizationalExtension().assign_group(self.__original, group)
 
     def get_transition(self):
         """Returns the lifecycle transition of the event, as defined by the
-- 
2.43.0


From a608ea02dec8b660522b307712361cac571a06d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:53 +0000
Subject: [PATCH 22/54] fix: nested values are keyed by the path of attribute
 keys

---
 .../extension/std/XAbstractNestedAttributeSupport.py      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py b/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
index 49368ab..b7772bb 100644
--- a/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
+++ b/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
@@ -111,12 +111,12 @@ class XAbstractNestedAttributeSupport:
 
         """
         value = self.extract_value(element)
-        if value:
-            nested_values[keys] = value
+        if value is not None:
+            nested_values[tuple(keys)] = value
 
         for attr in element.get_attributes().values():
             new_keys = list(keys)
-            new_keys.append(element.get_key())
+            new_keys.append(attr.get_key())
             self.__extract_nested_values_private__(attr, nested_values, new_keys)
 
     def assign_values(self, element, values):
@@ -149,7 +149,7 @@ class XAbstractNestedAttributeSupport:
         for key in values.keys():
             keys = list()
             keys.append(key)
-            nested_values[keys] = values[key]
+            nested_values[tuple(keys)] = values[key]
 
         self.assign_nested_values(element, nested_values)
 
-- 
2.43.0


From 95dc42bcdd499219031fd65855afa79c56a2f48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:53 +0000
Subject: [PATCH 23/54] fix: create an event with the given identity when it
 has no attributes

---
 src/opyenxes/factory/XFactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/factory/XFactory.py b/src/opyenxes/factory/XFactory.py
index 58a671e..1b22f45 100644
--- a/src/opyenxes/factory/XFactory.py
+++ b/src/opyenxes/factory/XFactory.py
@@ -61,7 +61,7 @@ class XFactory:
         if attribute:
             return XEvent(attribute)
 
-        return XEvent()
+        return XEvent(identity=identity)
 
     @staticmethod
     def create_attribute_map():
-- 
2.43.0


From 80e8f3c91a81c4745e38e72e9b1e5697000d09b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:53 +0000
Subject: [PATCH 24/54] fix: safe attribute names also for languages without a
 mapping

---
 src/opyenxes/info/XGlobalAttributeNameMap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/info/XGlobalAttributeNameMap.py b/src/opyenxes/info/XGlobalAttributeNameMap.py
index bacd9b1..8b06b17 100644
--- a/src/opyenxes/info/XGlobalAttributeNameMap.py
+++ b/src/opyenxes/info/XGlobalAttributeNameMap.py
@@ -104,10 +104,10 @@ class XGlobalAttributeNameMap(metaclass=XGlobalAttributeNameMapMetaclass):
             return alias
 
         elif isinstance(attribute, XAttribute) and isinstance(mapping, str):
-            return self.map_safely(attribute, self.__mappings.get(mapping))
+            return self.map_safely(attribute, self.get_mapping(mapping))
 
         elif isinstance(attribute, str) and isinstance(mapping, str):
-            return self.map_safely(attribute, self.__mappings.get(mapping))
+            return self.map_safely(attribute, self.get_mapping(mapping))
 
     def register_mapping(self, mapping_name, attribute_key, alias):
         """Registers a known attribute for mapping in a given attribute name
-- 
2.43.0


From 12e95866124f82890e47d48a25d876be807fcd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:53 +0000
Subject: [PATCH 25/54] fix: defined attributes belong to the level under which
 they are declared

---
 src/opyenxes/extension/XExtensionParser.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionParser.py b/src/opyenxes/extension/XExtensionParser.py
index b5530dc..24b617d 100644
--- a/src/opyenxes/extension/XExtensionParser.py
+++ b/src/opyenxes/extension/XExtensionParser.py
@@ -76,37 +76,31 @@ class XExtensionParser(metaclass=XExtensionMetaclass):
                 self.__xAttributes = self.__extension.get_meta_attributes()
 
             elif tag_name.lower() == "string":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_literal(mapping, "DEFAULT", self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "date":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_timestamp(mapping, 0, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "int":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_discrete(mapping, 0, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "float":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_continuous(mapping, 0.0, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "boolean":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_boolean(mapping, False, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "id":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_id(mapping, XIDFactory.create_id(), self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
-- 
2.43.0


From e1e7b7d52df360d36a640ee218bc1f3a3995f5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:53 +0000
Subject: [PATCH 26/54] fix: reading an extension definition does not depend on
 its URI being reachable

---
 src/opyenxes/extension/XExtensionParser.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionParser.py b/src/opyenxes/extension/XExtensionParser.py
index 24b617d..0a56006 100644
--- a/src/opyenxes/extension/XExtensionParser.py
+++ b/src/opyenxes/extension/XExtensionParser.py
@@ -5,7 +5,7 @@ from xml.sax import parse as xml_parse, parseString
 from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
 from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
 from opyenxes.id.XIDFactory import XIDFactory
-from urllib import request, parse, error
+from urllib import request, parse
 import os
 
 
@@ -59,11 +59,6 @@ class XExtensionParser(metaclass=XExtensionMetaclass):
                 mapping = attributes.getValue("name")
                 name = attributes.getValue("prefix")
                 x_uri = parse.urlparse(attributes.getValue("uri"))
-                try:
-                    request.urlopen(attributes.getValue("uri"))
-                except error.URLError:
-                    return
-
                 self.__extension = XExtension(mapping, name, x_uri)
 
             elif tag_name.lower() == "log":
-- 
2.43.0


From e2ff9a40403d5adce8848919afbe020292bb276f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:53 +0000
Subject: [PATCH 27/54] fix: extension definitions are read in the encoding
 they declare

---
 src/opyenxes/extension/XExtensionParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/XExtensionParser.py b/src/opyenxes/extension/XExtensionParser.py
index 0a56006..6c9dc48 100644
--- a/src/opyenxes/extension/XExtensionParser.py
+++ b/src/opyenxes/extension/XExtensionParser.py
@@ -129,7 +129,7 @@ class XExtensionParser(metaclass=XExtensionMetaclass):
         """
         handler = XExtensionParser.XExtensionHandler()
         if os.path.isfile(file):
-            with open(file) as data:
+            with open(file, "rb") as data:
                 xml_parse(data, handler)
 
         elif not os.path.isdir(file):
-- 
2.43.0


From 5a089f7c6e01a5fc2d1f79d15d497675500ecfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 28/54] fix: write tabs and line breaks in values so that they
 are read back

---
 src/opyenxes/data_out/XesXmlSerializer.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/data_out/XesXmlSerializer.py b/src/opyenxes/data_out/XesXmlSerializer.py
index 9e9f70f..e5d9883 100644
--- a/src/opyenxes/data_out/XesXmlSerializer.py
+++ b/src/opyenxes/data_out/XesXmlSerializer.py
@@ -1,4 +1,5 @@
 from opyenxes.log.XLogging import XLogging
+import re
 import time
 import xml.etree.ElementTree as Et
 from xml.dom import minidom
@@ -94,14 +95,29 @@ class XesXmlSerializer:
         text.insertBefore(c2, text.childNodes[0])
         text.insertBefore(c1, text.childNodes[0])
 
+        pretty_xml = self.escape_white_space(text.toprettyxml("\t"))
         if in_bytes:
-            out.write(text.toprettyxml("\t").encode())
+            out.write(pretty_xml.encode())
         else:
-            out.write(text.toprettyxml("\t"))
+            out.write(pretty_xml)
 
         duration1 = " (" + str(time.time() * 1000 - start) + " msec.)"
         XLogging().log("finished serializing log" + duration1, XLogging.Importance.DEBUG)
 
+    @staticmethod
+    def escape_white_space(xml_text):
+        """Helper method, escapes tabs and line breaks in XML attribute values,
+        which XML readers would otherwise normalize to blanks.
+
+        :param xml_text: XML text without quotes outside of tags.
+        :type xml_text: str
+        :return: The XML text with escaped attribute values.
+        :rtype: str
+        """
+        def escape(quoted):
+            return quoted.group().replace("\t", "&#9;").replace("\n", "&#10;").replace("\r", "&#13;")
+        return re.sub('"[^"]*"', escape, xml_text)
+
     def add_global_attributes(self, parent, scope, attributes):
         """Helper method for defining global attributes on a given scope.
 
-- 
2.43.0


From 02d1c729dd4eaba44cf38245b573958c0b8c9e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 29/54] fix: find the support folder on every platform, also
 when it exists

---
 src/opyenxes/utils/XRuntimeUtils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/opyenxes/utils/XRuntimeUtils.py b/src/opyenxes/utils/XRuntimeUtils.py
index dfb5440..576fe37 100644
--- a/src/opyenxes/utils/XRuntimeUtils.py
+++ b/src/opyenxes/utils/XRuntimeUtils.py
@@ -63,16 +63,16 @@ class XRuntimeUtils:
         :return: The path of the platform-dependent OpenXES support folder.
         :rtype: str
         """
-        home_dir = os.path.expanduser(os.getenv('USERPROFILE'))
+        home_dir = os.path.expanduser(os.getenv('USERPROFILE', '~'))
         dir_name = "OpenXES"
         if self.is_running_windows():
-            os.makedirs(home_dir + "\\" + dir_name)
+            os.makedirs(home_dir + "\\" + dir_name, exist_ok=True)
             return home_dir + "\\" + dir_name + "\\"
         elif self.is_running_mac_os_x():
-            os.makedirs(home_dir + "/Library/Application Support/" + dir_name)
+            os.makedirs(home_dir + "/Library/Application Support/" + dir_name, exist_ok=True)
             return home_dir + "/Library/Application Support/" + dir_name + "/"
         else:
-            os.makedirs(home_dir + "/." + dir_name)
+            os.makedirs(home_dir + "/." + dir_name, exist_ok=True)
             return home_dir + "/." + dir_name + "/"
 
     def get_extension_cache_folder(self):
@@ -82,5 +82,5 @@ class XRuntimeUtils:
         :rtype: str
         """
         ext_folder = self.get_support_folder() + "ExtensionCache"
-        os.makedirs(ext_folder)
+        os.makedirs(ext_folder, exist_ok=True)
         return ext_folder
-- 
2.43.0


From 6bb39fc1d44448158fdc2a778694d6d8c6687b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 30/54] fix: cache complete extension definitions as they were
 downloaded

---
 src/opyenxes/extension/XExtensionManager.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index 9dbe634..98f01a4 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -11,6 +11,7 @@ from opyenxes.utils.SingletonClassGenerator import XExtensionManagerMetaclass
 from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
 from opyenxes.log.XLogging import XLogging
 from urllib import request
+from http.client import HTTPException
 import os
 import time
 
@@ -138,27 +139,23 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         """
         uri_str = uri.geturl()
         if uri_str[-1] == "/":
-            uri_str = uri_str[(0, len(uri_str) - 1)]
-        filename = uri_str[uri_str.rindex(chr(47)):]
+            uri_str = uri_str[:-1]
+        filename = uri_str[uri_str.rindex(chr(47)) + 1:]
         if not filename.endswith(".xesext"):
             filename += ".xesext"
 
         cache_file = XRuntimeUtils().get_extension_cache_folder() + os.path.sep + filename
 
         try:
-            bis = request.urlopen(uri.geturl())
-            bos = open(cache_file, "w")
-
-            file = bis.read(1024)
-            while file != b"":
+            with request.urlopen(uri.geturl()) as bis:
+                file = bis.read()
+            with open(cache_file, "wb") as bos:
                 bos.write(file)
-                file = bis.read(1024)
-            bos.close()
             XLogging().log("Cached XES extension \\'" + uri.geturl() + "\\'",
                            XLogging.Importance.DEBUG)
 
-        except IOError as e:
-            print("I/O error({0}): {1}".format(e.errno, e.strerror))
+        except (IOError, HTTPException) as e:
+            print("I/O error: {}".format(e))
 
     def load_extension_cache(self):
         """Loads all extensions stored in the local cache. Cached extensions
-- 
2.43.0


From 3aebaf0a3ac92d8c92079b32eb639242f432d899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 31/54] fix: load extensions from the cache folder instead of
 the working directory

---
 src/opyenxes/extension/XExtensionManager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index 98f01a4..f9088ab 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -165,7 +165,7 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         """
         min_modified = (lambda: int(round(time.time() * 1000)))() - 2592000000
         ext_folder = XRuntimeUtils().get_extension_cache_folder()
-        ext_files = list(filter(os.path.isfile, os.listdir(ext_folder)))
+        ext_files = [file for file in os.listdir(ext_folder) if os.path.isfile(os.path.join(ext_folder, file))]
         if len(ext_files) == 0:
             XLogging().log("Extension caching disabled (Could not access cache"
                            " directory)!",
-- 
2.43.0


From 3f555fe261502f86eb5c60179df874cb2e6c982d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 32/54] fix: attach MXML data to the element that encloses it

---
 src/opyenxes/data_in/XMxmlParser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index 6d4eaa8..9f32b88 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -213,7 +213,7 @@ class XMxmlParser:
                 self.__logs.append(self.__currentProcess)
                 self.__currentProcess = None
 
-            elif tag_name == "Process":
+            elif tag_name == "Source":
                 self.__sourceOpen = False
 
             elif tag_name == "ProcessInstance":
@@ -242,11 +242,11 @@ class XMxmlParser:
                     originator = "".join(self.__buffer).strip()
                     if len(originator) > 0:
                         self.__genericAttribute.set_value("".join(self.__buffer).strip())
-                        if self.__entry:
+                        if self.__entry is not None:
                             self.__entry.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
-                        elif self.__currentInstance:
+                        elif self.__currentInstance is not None:
                             self.__currentInstance.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
-                        elif self.__currentProcess:
+                        elif self.__currentProcess is not None:
                             self.__currentProcess.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
                         elif self.__sourceOpen:
                             self.__sourceAttribute.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
-- 
2.43.0


From ba564926eb7af380a6b976dfd33f539fe0af7fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 33/54] fix: read the unknownType of MXML events

---
 src/opyenxes/data_in/XMxmlParser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index 9f32b88..45dcdfd 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -177,11 +177,11 @@ class XMxmlParser:
 
                 elif tag_name == "EventType":
                     self.__eventTypeAttribute = XLifecycleExtension().ATTR_TRANSITION.clone()
-                    unknown_type = attributes.get("unknowntype")
+                    unknown_type = attributes.get("unknownType", attributes.get("unknowntype"))
                     if unknown_type:
                         self.__eventTypeAttribute.set_value(unknown_type)
                     else:
-                        self.__eventTypeAttribute.set_value("UNKNOWN")
+                        self.__eventTypeAttribute.set_value(None)
 
                     self.__add_model_reference__(attributes, self.__eventTypeAttribute)
 
@@ -253,7 +253,7 @@ class XMxmlParser:
                     self.__genericAttribute = None
 
                 elif tag_name == "EventType":
-                    if self.__eventTypeAttribute.get_value() == "UNKNOWN":
+                    if self.__eventTypeAttribute.get_value() is None:
                         originator = "".join(self.__buffer).strip()
                         if len(originator) > 0:
                             self.__eventTypeAttribute.set_value(originator)
-- 
2.43.0


From fad16f5c077d558601bd50e2720219d4277023c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 34/54] fix: blank MXML originators and descriptions yield no
 attribute

---
 src/opyenxes/data_in/XMxmlParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index 45dcdfd..86ced39 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -146,7 +146,7 @@ class XMxmlParser:
                     XConceptExtension().assign_name(self.__currentProcess, description_string)
                     XLifecycleExtension().assign_model(self.__currentProcess, "standard")
 
-                    if description and len(description.lower()) > 0:
+                    if description and len(description.strip()) > 0:
 
                         description1 = self.__factory.create_attribute_literal("description", description, None)
                         self.__currentProcess.get_attributes()[description1.get_key()] = description1
@@ -277,8 +277,8 @@ class XMxmlParser:
                     originator = "".join(self.__buffer).strip()
                     if len(originator) > 0:
                         self.__originatorAttribute.set_value(originator)
+                        self.__entry.get_attributes()[self.__originatorAttribute.get_key()] = self.__originatorAttribute
 
-                    self.__entry.get_attributes()[self.__originatorAttribute.get_key()] = self.__originatorAttribute
                     self.__originatorAttribute = None
 
             self.__buffer.clear()
-- 
2.43.0


From 1a133ef8e45442c662b2b129f6feb18eabfcf860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 35/54] fix: write MXML element names and timestamps that MXML
 readers understand

---
 src/opyenxes/data_out/XMxmlSerializer.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/opyenxes/data_out/XMxmlSerializer.py b/src/opyenxes/data_out/XMxmlSerializer.py
index 7e1a439..f69fc88 100644
--- a/src/opyenxes/data_out/XMxmlSerializer.py
+++ b/src/opyenxes/data_out/XMxmlSerializer.py
@@ -107,16 +107,15 @@ class XMxmlSerializer:
                     originator_attr_1 = event.get_attributes().get("org:group")
 
                 if originator_attr_1 is not None:
-                    timestamp_attr = Et.SubElement(ate, "originator")
+                    timestamp_attr = Et.SubElement(ate, "Originator")
                     self.add_model_reference(originator_attr_1, timestamp_attr)
                     timestamp_attr.text = (originator_attr_1.get_value())
 
                 timestamp_attr_1 = event.get_attributes().get("time:timestamp")
                 if timestamp_attr_1:
-                    timestamp = Et.SubElement(ate, "timestamp")
+                    timestamp = Et.SubElement(ate, "Timestamp")
                     self.add_model_reference(timestamp_attr_1, timestamp)
-                    date = timestamp_attr_1.get_value()
-                    timestamp.text = str(date)
+                    timestamp.text = str(timestamp_attr_1)
 
         text = minidom.parseString(Et.tostring(root, "utf-8"))
         c1 = text.createComment("This file has been generated with the OpenXES library. It conforms")
@@ -153,7 +152,7 @@ class XMxmlSerializer:
 
         for attribute in attributes:
             if attribute.get_key() == "semantic:modelReference":
-                attribute_tag = Et.SubElement(node, "attribute")
+                attribute_tag = Et.SubElement(node, "Attribute")
                 attribute_tag.set("name", key_prefix + attribute.get_key())
                 self.add_model_reference(attribute, attribute_tag)
 
-- 
2.43.0


From b4c255d39d05f85527217f324d83b41dac3717cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 36/54] fix: write the attributes of MXML elements instead of
 dropping them

---
 src/opyenxes/data_out/XMxmlSerializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/data_out/XMxmlSerializer.py b/src/opyenxes/data_out/XMxmlSerializer.py
index f69fc88..4f46bee 100644
--- a/src/opyenxes/data_out/XMxmlSerializer.py
+++ b/src/opyenxes/data_out/XMxmlSerializer.py
@@ -151,7 +151,7 @@ class XMxmlSerializer:
             node = tag
 
         for attribute in attributes:
-            if attribute.get_key() == "semantic:modelReference":
+            if attribute.get_key() != "semantic:modelReference":
                 attribute_tag = Et.SubElement(node, "Attribute")
                 attribute_tag.set("name", key_prefix + attribute.get_key())
                 self.add_model_reference(attribute, attribute_tag)
@@ -169,7 +169,7 @@ class XMxmlSerializer:
                     if len(sub_key_prefix) > 0:
                         sub_key_prefix = key_prefix + ":" + sub_key_prefix
 
-                    self.add_attribute(node, sub_key_prefix, sub_attributes)
+                    self.add_attribute(node, sub_attributes, sub_key_prefix)
 
     @staticmethod
     def add_model_reference(element, target):
-- 
2.43.0


From c011859e199472725f8bc8786237e9d5c4d60217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 37/54] fix: attributes of different kinds are never equal

---
 src/opyenxes/model/XAttributeCollection.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/opyenxes/model/XAttributeCollection.py b/src/opyenxes/model/XAttributeCollection.py
index 9a393b9..c19a8ee 100644
--- a/src/opyenxes/model/XAttributeCollection.py
+++ b/src/opyenxes/model/XAttributeCollection.py
@@ -51,6 +51,14 @@ class XAttributeCollection(XAttribute):
             clone.get_attributes()[key] = members[id(attribute)]
         return clone
 
+    def __hash__(self):
+        return super().__hash__()
+
+    def __eq__(self, other):
+        if other is self:
+            return True
+        return type(other) is type(self) and super().__eq__(other)
+
     def __str__(self):
         text = []
         sep = "["
-- 
2.43.0


From 703e565c3c3045660adab97732c0dd6d1d75bd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 38/54] fix: create singletons once when threads request them
 at the same time

---
 src/opyenxes/utils/SingletonClassGenerator.py | 77 ++++++++++++++-----
 1 file changed, 59 insertions(+), 18 deletions(-)

diff --git a/src/opyenxes/utils/SingletonClassGenerator.py b/src/opyenxes/utils/SingletonClassGenerator.py
index e60aa7e..938c1ef 100644
--- a/src/opyenxes/utils/SingletonClassGenerator.py
+++ b/src/opyenxes/utils/SingletonClassGenerator.py
@@ -1,3 +1,8 @@
+from threading import RLock
+
+LOCK = RLock()
+
+
 class XCostAmountMetaclass(type):
     """
     This Metaclass produce a singleton XCostAmount class
@@ -6,7 +11,9 @@ class XCostAmountMetaclass(type):
 
     def __call__(cls, *args, **kw):
         if not XCostAmountMetaclass.instance:
-            XCostAmountMetaclass.instance = super().__call__(*args, **kw)
+            with LOCK:
+                if not XCostAmountMetaclass.instance:
+                    XCostAmountMetaclass.instance = super().__call__(*args, **kw)
         return XCostAmountMetaclass.instance
 
 
@@ -18,7 +25,9 @@ class XCostDriverMetaclass(type):
 
     def __call__(cls, *args, **kw):
         if not XCostDriverMetaclass.instance:
-            XCostDriverMetaclass.instance = super().__call__(*args, **kw)
+            with LOCK:
+                if not XCostDriverMetaclass.instance:
+                    XCostDriverMetaclass.instance = super().__call__(*args, **kw)
         return XCostDriverMetaclass.instance
 
 
@@ -30,7 +39,9 @@ class XCostTypeMetaclass(type):
 
     def __call__(cls, *args, **kw):
         if not XCostTypeMetaclass.instance:
-            XCostTypeMetaclass.instance = super().__call__(*args, **kw)
+            with LOCK:
+                if not XCostTypeMetaclass.instance:
+                    XCostTypeMetaclass.instance = super().__call__(*args, **kw)
         return XCostTypeMetaclass.instance
 
 
@@ -42,7 +53,9 @@ class XCostExtensionMetaclass(type):
 
     def __call__(cls, *args, **kw):
         if not XCostExtensionMetaclass.instance:
-            XCostExtensionMetaclass.instance = super().__call__(*args, **kw)
+            with LOCK:
+                if not XCostExtensionMetaclass.instance:
+                    XCostExtensionMetaclass.instance = super().__call__(*args, **kw)
         return XCostExtensionMetaclass.instance
 
 
@@ -54,7 +67,9 @@ class XConceptExtensionMetaclass(type):
 
     def __call__(cls, *args, **kw):
         if not XConceptExtensionMetaclass.instance:
-            XConceptExtensionMetaclass.instance = super().__call__(*args, **kw)
+            with LOCK:
+                if not XConceptExtensionMetaclass.instance:
+                    XConceptExtensionMetaclass.instance = super().__call__(*args, **kw)
         return XConceptExtensionMetaclass.instance
 
 
@@ -66,7 +81,9 @@ class XExtensionManagerMetaclass(type):
 
     def __call__(cls, *args, **kw):
         if not XExtensionManagerMetaclass.instance:
-            XExtensionManagerMetaclass.instance = super().__call__(*args, **kw)
+            with LOCK:
+                if not XExtensionManagerMetaclass.instance:
+                    XExtensionManagerMetaclass.instance = super().__call__(*args, **kw)
         return XExtensionManagerMetaclass.instance
 
 
@@ -78,7 +95,9 @@ class XExtensionMetaclass(type):
 
     def __call__(cls, *args, **kw):
         if not XExtensionMetaclass.instance:
-            XExtensionMetaclass.instance = super().__call__(*args, **kw)
+            with LOCK:
+                if not XExtensionMetaclass.instance:
+                    XExtensionMetaclass.instance = super().__call__(*args, **kw)
         return XExtensionMetaclass.instance
 
 
@@ -90,7 +109,9 @@ class XLifecycleExtensionMetaclass(type):
 
     def __call__(cls, *args, **kw):
         if not XLifecycleExtensionMetaclass.instance:
-            XLifecycleExtensionMetaclass.instance = super().__call__(*args, **kw)
+            with LOCK:
+                if not XLifecycleExtensionMetaclass.instance:
+                    XLifecycleExtensionMetaclass.instance = super().__call__(*args, **kw)
         return XLifecycleExtensionMetaclass.instance
 
 
@@ -102,7 +123,9 @@ class XIdentityExtensionMetaclass(type):
 
     def __call__(cls, *args, **kw):
         if not XIdentityExtensionMetaclass.instance:
-            XIdentityExtensionMetaclass.instance = super().__call__(*args, **kw)
+            with LOCK:
+                if not XIdentityExtensionMetaclass.instance:
+                    XIdentityExtensionMetaclass.instance = super().__call__(*args, **kw)
         return XIdentityExtensionMetaclass.instance
 
 
@@ -114,7 +137,9 @@ class XFactoryRegistryMetaclass(type):
 
     def __call__(cls, *args, **kw):
         if not XFactoryRegistryMetaclass.instance:
-            XFactoryRegistryMetaclass.instance = super().__call__(*args, **kw)
+            with LOCK:
+                if not XFactoryRegistryMetaclass.instance:
+                    XFactoryRegistryMetaclass.instance = super().__call__(*args, **kw)
         return XFactoryRegistryMetaclass.instance
 
 
@@ -126,7 +151,9 @@ class XIDFactoryMetaclass(type):
 
     def __call__(cls, *args, **kw):
         if not XIDFactoryMetaclass.instance:
-            XIDFactoryMetaclass.instance = super().__call__(*args, **kw)
+            with LOCK:
+                if not XIDFactoryMetaclass.instance:
+                    XIDFactoryMetaclass.instance = super().__call__(*args, **kw)
         return XIDFactoryMetaclass.instance
 
 
@@ -138,7 +165,9 @@ class XGlobalAttributeNameMapMetaclass(type):
 
     def __call__(cls, *args, **kw):
         if not XGlobalAttributeNameMapMetaclass.instance:
-            XGlobalAttributeNameMapMetaclass.instance = super().__call__(*args, **kw)
+            with LOCK:
+                if not XGlobalAttributeNameMapMetaclass.instance:
+                    XGlobalAttributeNameMapMetaclass.instance = super().__call__(*args, **kw)
         return XGlobalAttributeNameMapMetaclass.instance
 
 
@@ -150,7 +179,9 @@ class XMicroExtensionMetaclass(type):
 
     def __call__(cls, *args, **kw):
         if not XMicroExtensionMetaclass.instance:
-            XMicroExtensionMetaclass.instance = super().__call__(*args, **kw)
+            with LOCK:
+                if not XMicroExtensionMetaclass.instance:
+                    XMicroExtensionMetaclass.instance = super().__call__(*args, **kw)
         return XMicroExtensionMetaclass.instance
 
 
@@ -162,7 +193,9 @@ class XTimeExtensionMetaclass(type):
 
     def __call__(cls, *args, **kw):
         if not XTimeExtensionMetaclass.instance:
-            XTimeExtensionMetaclass.instance = super().__call__(*args, **kw)
+            with LOCK:
+                if not XTimeExtensionMetaclass.instance:
+                    XTimeExtensionMetaclass.instance = super().__call__(*args, **kw)
         return XTimeExtensionMetaclass.instance
 
 
@@ -174,7 +207,9 @@ class XOrganizationalExtensionMetaclass(type):
 
     def __call__(cls, *args, **kw):
         if not XOrganizationalExtensionMetaclass.instance:
-            XOrganizationalExtensionMetaclass.instance = super().__call__(*args, **kw)
+            with LOCK:
+                if not XOrganizationalExtensionMetaclass.instance:
+                    XOrganizationalExtensionMetaclass.instance = super().__call__(*args, **kw)
         return XOrganizationalExtensionMetaclass.instance
 
 
@@ -186,7 +221,9 @@ class XSemanticExtensionMetaclass(type):
 
     def __call__(cls, *args, **kw):
         if not XSemanticExtensionMetaclass.instance:
-            XSemanticExtensionMetaclass.instance = super().__call__(*args, **kw)
+            with LOCK:
+                if not XSemanticExtensionMetaclass.instance:
+                    XSemanticExtensionMetaclass.instance = super().__call__(*args, **kw)
         return XSemanticExtensionMetaclass.instance
 
 
@@ -198,7 +235,9 @@ class XSerializerRegistryMetaclass(type):
 
     def __call__(cls, *args, **kw):
         if not XSerializerRegistryMetaclass.instance:
-            XSerializerRegistryMetaclass.instance = super().__call__(*args, **kw)
+            with LOCK:
+                if not XSerializerRegistryMetaclass.instance:
+                    XSerializerRegistryMetaclass.instance = super().__call__(*args, **kw)
         return XSerializerRegistryMetaclass.instance
 
 
@@ -210,5 +249,7 @@ class XParserRegistryMetaclass(type):
 
     def __call__(cls, *args, **kw):
         if not XParserRegistryMetaclass.instance:
-            XParserRegistryMetaclass.instance = super().__call__(*args, **kw)
+            with LOCK:
+                if not XParserRegistryMetaclass.instance:
+                    XParserRegistryMetaclass.instance = super().__call__(*args, **kw)
         return XParserRegistryMetaclass.instance
-- 
2.43.0


From c96e46142a97bead5901041b50db9e8f180523cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:29 +0000
Subject: [PATCH 39/54] fix: a document without a log is an error, not a log

---
 src/opyenxes/data_in/XesXmlParser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index 9ad3e95..5a9e4e0 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -1,5 +1,5 @@
 ﻿from xml.sax.handler import ContentHandler
-from xml.sax import parse as xml_parse
+from xml.sax import parse as xml_parse, SAXException
 from urllib import parse
 from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
 from opyenxes.extension.XExtensionManager import XExtensionManager
@@ -59,6 +59,9 @@ class XesXmlParser:
 
         xml_parse(file, handler)
 
+        if handler.get_log() is None:
+            raise SAXException("The document does not contain an XES log")
+
         return [handler.get_log()]
 
     @staticmethod
-- 
2.43.0


From c7917cc491c257dc91daa4c0ae32612922f76c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:02 +0000
Subject: [PATCH 40/54] fix: a declared extension is found by its URI first,
 and skipped without one

---
 src/opyenxes/data_in/XesXmlParser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index 5a9e4e0..5ebff82 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -137,16 +137,16 @@ class XesXmlParser:
                     prefix = attributes.get("prefix")
                     keys = attributes.get("uri")
 
-                    if prefix is not None:
-                        extension = XExtensionManager().get_by_prefix(prefix)
-
-                    elif keys is not None:
+                    if keys is not None:
                         extension = XExtensionManager().get_by_uri(parse.urlparse(keys))
 
+                    if extension is None and prefix is not None:
+                        extension = XExtensionManager().get_by_prefix(prefix)
+
                     if extension is not None:
                         self.__log.get_extensions().add(extension)
                     else:
-                        print("Unknown extension: " + keys)
+                        print("Unknown extension: {}".format(keys or prefix))
 
                 elif tag_name == "global":
 
-- 
2.43.0


From 4ae72a60ca7d28e28edd5474c9f81ea28d80d800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:44 +0000
Subject: [PATCH 41/54] fix: threads that ask for a new language get the same
 mapping

---
 src/opyenxes/info/XGlobalAttributeNameMap.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/opyenxes/info/XGlobalAttributeNameMap.py b/src/opyenxes/info/XGlobalAttributeNameMap.py
index 8b06b17..d21cd89 100644
--- a/src/opyenxes/info/XGlobalAttributeNameMap.py
+++ b/src/opyenxes/info/XGlobalAttributeNameMap.py
@@ -57,8 +57,7 @@ class XGlobalAttributeNameMap(metaclass=XGlobalAttributeNameMapMetaclass):
         """
         mapping = self.__mappings.get(name)
         if mapping is None:
-            mapping = XAttributeNameMap(name)
-            self.__mappings[name] = mapping
+            mapping = self.__mappings.setdefault(name, XAttributeNameMap(name))
 
         return mapping
 
-- 
2.43.0


From e7062c1a493f8ae9fed3956380143759e69dc0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:06 +0000
Subject: [PATCH 42/54] fix: a timer runs from its creation and stops in
 milliseconds

---
 src/opyenxes/utils/XTimer.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/opyenxes/utils/XTimer.py b/src/opyenxes/utils/XTimer.py
index bfab16c..81bf58b 100644
--- a/src/opyenxes/utils/XTimer.py
+++ b/src/opyenxes/utils/XTimer.py
@@ -12,23 +12,22 @@ class XTimer:
     HOUR_MILLIS = 3600000
     MINUTE_MILLIS = 60000
     SECOND_MILLIS = 1000
-    __start = time.time() * 1000
 
     def __init__(self):
-        self.__stop = self.__start
+        self.start()
 
     def start(self):
         """Starts the timer.
 
         """
         self.__start = time.time() * 1000
-        self.__stop = self.__start
+        self.__stop = None
 
     def stop(self):
         """Stops the timer (takes time).
 
         """
-        self.__stop = time.time()
+        self.__stop = time.time() * 1000
 
     def get_duration(self):
         """Retrieve the runtime of the timer.
@@ -36,8 +35,8 @@ class XTimer:
         :return: Runtime between start (or creation of timer) and stop, in milliseconds.
         :rtype: int
         """
-        if self.__start == self.__stop:
-            return time.time() * 1000 - self.__stop
+        if self.__stop is None:
+            return time.time() * 1000 - self.__start
         return self.__stop - self.__start
 
     def get_duration_string(self):
-- 
2.43.0


From 4e6229087b3666121fd5c006e92de678e77b2e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:48 +0000
Subject: [PATCH 43/54] fix: registering an extension again replaces it for
 every lookup, not only by URI

---
 src/opyenxes/extension/XExtensionManager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index f9088ab..479087b 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -44,6 +44,8 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         self.__extension_map[extension.get_uri()] = extension
         if extension not in self.__extension_list:
             self.__extension_list.append(extension)
+        else:
+            self.__extension_list[self.__extension_list.index(extension)] = extension
 
     def get_by_uri(self, uri):
         """Retrieves an extension instance by its unique URI. If the extension
-- 
2.43.0


From 858fbfd305c963e22d6ffaad040d762e9e780e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:15 +0000
Subject: [PATCH 44/54] fix: class identities of several keys stay distinct
 when a text contains the separator

---
 .../XEventAttributeClassifier.py              | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/opyenxes/classification/XEventAttributeClassifier.py b/src/opyenxes/classification/XEventAttributeClassifier.py
index 4d73e00..69d3377 100644
--- a/src/opyenxes/classification/XEventAttributeClassifier.py
+++ b/src/opyenxes/classification/XEventAttributeClassifier.py
@@ -33,12 +33,12 @@ class XEventAttributeClassifier:
             attribute_1 = event.get_attributes().get(self.__keys[0])
             attribute_2 = event.get_attributes().get(self.__keys[1])
             if attribute_1 and attribute_2:
-                return "{}&&{}".format(str(attribute_1),
-                                      str(attribute_2))
+                return "{}&&{}".format(self.__part(attribute_1),
+                                      self.__part(attribute_2))
             elif attribute_1:
-                return "{}&&".format(str(attribute_1))
+                return "{}&&".format(self.__part(attribute_1))
             elif attribute_2:
-                return "&&{}".format(str(attribute_2))
+                return "&&{}".format(self.__part(attribute_2))
 
             return "&&"
 
@@ -47,12 +47,27 @@ class XEventAttributeClassifier:
             for key in self.__keys:
                 attribute = event.get_attributes().get(key)
                 if attribute:
-                    identity.append(str(attribute))
+                    identity.append(self.__part(attribute))
                 else:
                     identity.append("")
 
             return "&&".join(identity)
 
+    @staticmethod
+    def __part(attribute):
+        """Returns the text of an attribute as a part of an identity, with its
+        ampersands escaped where they could be taken for the separator.
+
+        :param attribute: The attribute.
+        :type attribute: `XAttribute`
+        :return: The part of the identity.
+        :rtype: str
+        """
+        text = str(attribute)
+        if "&&" in text or "\\&" in text or text.startswith("&") or text.endswith("&"):
+            return text.replace("\\", "\\\\").replace("&", "\\&")
+        return text
+
     def name(self):
         """Returns the name of this comparator
 
-- 
2.43.0


From 19e3dda98e8b0d75278f6489a5b4b56d798d62f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:16 +0000
Subject: [PATCH 45/54] fix: a timestamp whose offset has seconds prints a
 valid xs:dateTime for the same instant

---
 src/opyenxes/model/XAttributeTimestamp.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index ef38574..a76177a 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -87,15 +87,21 @@ class XAttributeTimestamp(XAttribute):
                 self.__value.microsecond // 1000,
                 "Z")
 
+        value = self.__value
+        seconds = value.utcoffset() % timedelta(minutes=1)
+        if seconds:
+            # xs:dateTime knows offsets of whole minutes only
+            value = (value - seconds).replace(tzinfo=timezone(value.utcoffset() - seconds))
+
         return "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:03}{}".format(
-            self.__value.year,
-            self.__value.month,
-            self.__value.day,
-            self.__value.hour,
-            self.__value.minute,
-            self.__value.second,
-            self.__value.microsecond // 1000,
-            self.__value.isoformat()[-6:].replace("+00:00", "Z"))
+            value.year,
+            value.month,
+            value.day,
+            value.hour,
+            value.minute,
+            value.second,
+            value.microsecond // 1000,
+            value.isoformat()[-6:].replace("+00:00", "Z"))
 
     def __lt__(self, other):
         return True if self.compare_to(other) < 0 else False
-- 
2.43.0


From e9121135ddc6dd43759c41a185ad0802f01b1cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:31 +0000
Subject: [PATCH 46/54] fix: MXML writer keeps attributes nested under an empty
 key apart from top-level attributes

---
 src/opyenxes/data_out/XMxmlSerializer.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/opyenxes/data_out/XMxmlSerializer.py b/src/opyenxes/data_out/XMxmlSerializer.py
index 4f46bee..214b3f8 100644
--- a/src/opyenxes/data_out/XMxmlSerializer.py
+++ b/src/opyenxes/data_out/XMxmlSerializer.py
@@ -164,10 +164,7 @@ class XMxmlSerializer:
                 sub_attributes = attribute.get_attributes().values()
 
                 if len(sub_attributes) > 0:
-                    sub_key_prefix = attribute.get_key()
-
-                    if len(sub_key_prefix) > 0:
-                        sub_key_prefix = key_prefix + ":" + sub_key_prefix
+                    sub_key_prefix = key_prefix + ":" + attribute.get_key()
 
                     self.add_attribute(node, sub_attributes, sub_key_prefix)
 
-- 
2.43.0


From 1583d60e7b7477e719c5b3e0737ebcdbc344ded8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:47 +0000
Subject: [PATCH 47/54] fix: offset minutes beyond 59 and a Z inside a date
 make the date unreadable

---
 src/opyenxes/utils/XsDateTimeConversion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/utils/XsDateTimeConversion.py b/src/opyenxes/utils/XsDateTimeConversion.py
index 8ab1f42..090a58e 100644
--- a/src/opyenxes/utils/XsDateTimeConversion.py
+++ b/src/opyenxes/utils/XsDateTimeConversion.py
@@ -12,8 +12,8 @@ def parse_date_time(date_time):
     try:
         value = date_time
         relative_zone = ""
-        if "Z" in value:
-            value = value.replace("Z", "")
+        if value.endswith("Z"):
+            value = value[:-1]
             relative_zone = "Z"
         elif "+" in value:
             relative_zone = value[value.index("+"):]
@@ -28,6 +28,8 @@ def parse_date_time(date_time):
 
         if relative_zone != "Z" and relative_zone != "":
             hours, minute = relative_zone.split(":")
+            if not (hours[1:] + minute).isdigit() or int(minute) > 59:
+                raise ValueError("invalid offset")
             if "-" in hours:
                 minute = int(minute) * -1
         else:
-- 
2.43.0


From a475272d7929b5ab75d5efc49b9209e051e4ebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:59 +0000
Subject: [PATCH 48/54] fix: writing to a text file that is not UTF-8 gives a
 document XML readers understand

---
 src/opyenxes/data_out/XMxmlSerializer.py  |  3 ++-
 src/opyenxes/data_out/XesXmlSerializer.py | 20 +++++++++++++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/data_out/XMxmlSerializer.py b/src/opyenxes/data_out/XMxmlSerializer.py
index 214b3f8..0f793b5 100644
--- a/src/opyenxes/data_out/XMxmlSerializer.py
+++ b/src/opyenxes/data_out/XMxmlSerializer.py
@@ -2,6 +2,7 @@ from opyenxes.log.XLogging import XLogging
 import time
 import xml.etree.ElementTree as Et
 from xml.dom import minidom
+from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
 from opyenxes.extension.std.XConceptExtension import XConceptExtension
 
 
@@ -129,7 +130,7 @@ class XMxmlSerializer:
         if in_bytes:
             out.write(text.toprettyxml("\t").encode())
         else:
-            out.write(text.toprettyxml("\t"))
+            out.write(XesXmlSerializer.encodable(text.toprettyxml("\t"), out))
 
         duration1 = " (" + str(time.time() * 1000 - start) + " msec.)"
         XLogging().log("finished serializing log" + duration1, XLogging.Importance.DEBUG)
diff --git a/src/opyenxes/data_out/XesXmlSerializer.py b/src/opyenxes/data_out/XesXmlSerializer.py
index e5d9883..99b0900 100644
--- a/src/opyenxes/data_out/XesXmlSerializer.py
+++ b/src/opyenxes/data_out/XesXmlSerializer.py
@@ -99,7 +99,7 @@ class XesXmlSerializer:
         if in_bytes:
             out.write(pretty_xml.encode())
         else:
-            out.write(pretty_xml)
+            out.write(self.encodable(pretty_xml, out))
 
         duration1 = " (" + str(time.time() * 1000 - start) + " msec.)"
         XLogging().log("finished serializing log" + duration1, XLogging.Importance.DEBUG)
@@ -118,6 +118,24 @@ class XesXmlSerializer:
             return quoted.group().replace("\t", "&#9;").replace("\n", "&#10;").replace("\r", "&#13;")
         return re.sub('"[^"]*"', escape, xml_text)
 
+    @staticmethod
+    def encodable(xml_text, out):
+        """Helper method, escapes all but the ASCII characters of an XML text
+        for a text target which does not encode it as UTF-8, the encoding of an
+        XML document that names none.
+
+        :param xml_text: XML text, in which only values have other characters.
+        :type xml_text: str
+        :param out: The text target to write the XML text to.
+        :type out: _io.TextIOWrapper
+        :return: The XML text to write to the target.
+        :rtype: str
+        """
+        encoding = getattr(out, "encoding", None)
+        if encoding is None or encoding.lower().replace("_", "-") in ("utf-8", "utf8"):
+            return xml_text
+        return xml_text.encode("ascii", "xmlcharrefreplace").decode("ascii")
+
     def add_global_attributes(self, parent, scope, attributes):
         """Helper method for defining global attributes on a given scope.
 
-- 
2.43.0


From 6c8a3b0d776e1eed58c10efc2af0929df39230b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:36 +0000
Subject: [PATCH 49/54] fix: an extension whose URI is a SplitResult is found
 like any other

The documentation allows urllib.parse.SplitResult for extension URIs, but such
an extension was neither equal to one with the same URI as a ParseResult nor
found by documents that declare it, and lookups by SplitResult found nothing.
---
 src/opyenxes/extension/XExtension.py        | 5 +++++
 src/opyenxes/extension/XExtensionManager.py | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/src/opyenxes/extension/XExtension.py b/src/opyenxes/extension/XExtension.py
index 50fdeee..c324859 100644
--- a/src/opyenxes/extension/XExtension.py
+++ b/src/opyenxes/extension/XExtension.py
@@ -1,3 +1,6 @@
+from urllib.parse import SplitResult, urlparse
+
+
 class XExtension:
     """This class defines and implements extensions to the basic log meta-model.
     Extensions have a name, a defined prefix, and a unique URI. They can define
@@ -14,6 +17,8 @@ class XExtension:
     :type uri: urllib.parse.ParseResult or urllib.parse.SplitResult
     """
     def __init__(self, name, prefix, uri):
+        if isinstance(uri, SplitResult):
+            uri = urlparse(uri.geturl())
         self.__name = name
         self.__prefix = prefix
         self.__uri = uri
diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index 479087b..f811b82 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -11,6 +11,7 @@ from opyenxes.utils.SingletonClassGenerator import XExtensionManagerMetaclass
 from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
 from opyenxes.log.XLogging import XLogging
 from urllib import request
+from urllib.parse import SplitResult, urlparse
 from http.client import HTTPException
 import os
 import time
@@ -58,6 +59,8 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         :return: The requested extension.
         :rtype: `XExtension`
         """
+        if isinstance(uri, SplitResult):
+            uri = urlparse(uri.geturl())
         return self.__extension_map.get(uri)
 
     def get_by_name(self, name):
-- 
2.43.0


From 1047f4c5494d717425a16f435f46a4c8a03e8d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:46 +0000
Subject: [PATCH 50/54] fix: caching an extension whose URI has no slash or
 cannot be fetched raises no error

---
 src/opyenxes/extension/XExtensionManager.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index f811b82..2d8871a 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -143,9 +143,9 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         :type uri: urllib.parse.ParseResult or urllib.parse.SplitResult
         """
         uri_str = uri.geturl()
-        if uri_str[-1] == "/":
+        if uri_str.endswith("/"):
             uri_str = uri_str[:-1]
-        filename = uri_str[uri_str.rindex(chr(47)) + 1:]
+        filename = uri_str.rpartition("/")[2]
         if not filename.endswith(".xesext"):
             filename += ".xesext"
 
@@ -159,7 +159,7 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
             XLogging().log("Cached XES extension \\'" + uri.geturl() + "\\'",
                            XLogging.Importance.DEBUG)
 
-        except (IOError, HTTPException) as e:
+        except (IOError, HTTPException, ValueError) as e:
             print("I/O error: {}".format(e))
 
     def load_extension_cache(self):
-- 
2.43.0


From d33ec78d7415be1a8bba194f8f3447067dee5e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:46 +0000
Subject: [PATCH 51/54] fix: the attributes an extension defines include those
 added to a level later

---
 src/opyenxes/extension/XExtension.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/opyenxes/extension/XExtension.py b/src/opyenxes/extension/XExtension.py
index c324859..0091b15 100644
--- a/src/opyenxes/extension/XExtension.py
+++ b/src/opyenxes/extension/XExtension.py
@@ -22,7 +22,6 @@ class XExtension:
         self.__name = name
         self.__prefix = prefix
         self.__uri = uri
-        self.__all_attributes = None
         self.__log_attributes = set()
         self.__trace_attributes = set()
         self.__event_attributes = set()
@@ -64,14 +63,13 @@ class XExtension:
         :return: The collection of attributes defined by this extension
         :rtype: set
         """
-        if self.__all_attributes is None:
-            self.__all_attributes = set()
-            self.__all_attributes.update(self.__log_attributes)
-            self.__all_attributes.update(self.__trace_attributes)
-            self.__all_attributes.update(self.__event_attributes)
-            self.__all_attributes.update(self.__meta_attributes)
-
-        return self.__all_attributes
+        all_attributes = set()
+        all_attributes.update(self.__log_attributes)
+        all_attributes.update(self.__trace_attributes)
+        all_attributes.update(self.__event_attributes)
+        all_attributes.update(self.__meta_attributes)
+
+        return all_attributes
 
     def get_log_attributes(self):
         """ Returns the collection of attributes defined by this extension for
-- 
2.43.0


From dfb8536cbe611d849b84f4fcb4fe04eecbbcd95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:46 +0000
Subject: [PATCH 52/54] fix: an extension declared with a malformed URI does
 not fail the read

---
 src/opyenxes/data_in/XesXmlParser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index 5ebff82..cbfcd9d 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -138,7 +138,10 @@ class XesXmlParser:
                     keys = attributes.get("uri")
 
                     if keys is not None:
-                        extension = XExtensionManager().get_by_uri(parse.urlparse(keys))
+                        try:
+                            extension = XExtensionManager().get_by_uri(parse.urlparse(keys))
+                        except ValueError:
+                            extension = None
 
                     if extension is None and prefix is not None:
                         extension = XExtensionManager().get_by_prefix(prefix)
-- 
2.43.0


From b4f3d250cba139f80776f5c49f72661080ac39ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:58 +0000
Subject: [PATCH 53/54] fix: a message the console cannot show does not fail
 the operation that reports it

---
 src/opyenxes/data_in/XUniversalParser.py    |  3 ++-
 src/opyenxes/data_in/XesXmlParser.py        |  3 ++-
 src/opyenxes/extension/XExtensionManager.py |  5 +++--
 src/opyenxes/log/XStdoutLoggingListener.py  | 15 ++++++++++++++-
 src/opyenxes/utils/XsDateTimeConversion.py  |  3 ++-
 5 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/opyenxes/data_in/XUniversalParser.py b/src/opyenxes/data_in/XUniversalParser.py
index 35074d0..4667152 100644
--- a/src/opyenxes/data_in/XUniversalParser.py
+++ b/src/opyenxes/data_in/XUniversalParser.py
@@ -1,4 +1,5 @@
 from opyenxes.data_in.XParserRegistry import XParserRegistry
+from opyenxes.log.XStdoutLoggingListener import show
 
 
 class XUniversalParser:
@@ -38,6 +39,6 @@ class XUniversalParser:
                     result = parse.parse(file)
                     return result
                 except Exception as error:
-                    print(error)
+                    show(str(error))
 
         raise Exception("No suitable parser could be found!")
diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index cbfcd9d..e7a9b6b 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -5,6 +5,7 @@ from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
 from opyenxes.extension.XExtensionManager import XExtensionManager
 from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
 from opyenxes.utils.XsDateTimeConversion import parse_date_time
+from opyenxes.log.XStdoutLoggingListener import show
 from opyenxes.utils.XTokenHelper import XTokenHelper
 from opyenxes.id.XID import XID
 from opyenxes.model.XAttributeCollection import XAttributeCollection
@@ -149,7 +150,7 @@ class XesXmlParser:
                     if extension is not None:
                         self.__log.get_extensions().add(extension)
                     else:
-                        print("Unknown extension: {}".format(keys or prefix))
+                        show("Unknown extension: {}".format(keys or prefix))
 
                 elif tag_name == "global":
 
diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index 2d8871a..1db8445 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -10,6 +10,7 @@ from opyenxes.extension.XExtensionParser import XExtensionParser
 from opyenxes.utils.SingletonClassGenerator import XExtensionManagerMetaclass
 from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
 from opyenxes.log.XLogging import XLogging
+from opyenxes.log.XStdoutLoggingListener import show
 from urllib import request
 from urllib.parse import SplitResult, urlparse
 from http.client import HTTPException
@@ -160,7 +161,7 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
                            XLogging.Importance.DEBUG)
 
         except (IOError, HTTPException, ValueError) as e:
-            print("I/O error: {}".format(e))
+            show("I/O error: {}".format(e))
 
     def load_extension_cache(self):
         """Loads all extensions stored in the local cache. Cached extensions
@@ -200,4 +201,4 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
                                            "\' (already defined)",
                                            XLogging.Importance.DEBUG)
                     except Exception as e:
-                        print("Exception error: {}".format(e))
+                        show("Exception error: {}".format(e))
diff --git a/src/opyenxes/log/XStdoutLoggingListener.py b/src/opyenxes/log/XStdoutLoggingListener.py
index c2482e9..28417cf 100644
--- a/src/opyenxes/log/XStdoutLoggingListener.py
+++ b/src/opyenxes/log/XStdoutLoggingListener.py
@@ -1,3 +1,16 @@
+def show(text):
+    """Prints a text in the console. Characters the console cannot show are
+    printed as escape sequences.
+
+    :param text: Text to be printed.
+    :type text: str
+    """
+    try:
+        print(text)
+    except UnicodeEncodeError:
+        print(text.encode("ascii", "backslashreplace").decode("ascii"))
+
+
 class XStdOutLoggingListener:
     """Default standard output logging listener.
 
@@ -12,4 +25,4 @@ class XStdOutLoggingListener:
         :param importance: Importance of the log message.
         :type importance: str
         """
-        print("Importance: {}\nMessage: {}\n".format(importance, message))
+        show("Importance: {}\nMessage: {}\n".format(importance, message))
diff --git a/src/opyenxes/utils/XsDateTimeConversion.py b/src/opyenxes/utils/XsDateTimeConversion.py
index 090a58e..2719ba3 100644
--- a/src/opyenxes/utils/XsDateTimeConversion.py
+++ b/src/opyenxes/utils/XsDateTimeConversion.py
@@ -1,4 +1,5 @@
 from datetime import datetime, timedelta, timezone
+from opyenxes.log.XStdoutLoggingListener import show
 
 
 def parse_date_time(date_time):
@@ -48,5 +49,5 @@ def parse_date_time(date_time):
         return time
 
     except ValueError:
-        print("\"" + date_time + "\" is not a valid representation of a XES timestamp.")
+        show("\"" + date_time + "\" is not a valid representation of a XES timestamp.")
         return None
-- 
2.43.0


From 6d10b223e62588f83adf5e2f984dafe32b27a8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:18 +0000
Subject: [PATCH 54/54] fix: extensions registered by several threads at once
 are each registered once

---
 src/opyenxes/extension/XExtensionManager.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index 1db8445..743b377 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -7,7 +7,7 @@ from opyenxes.extension.std.XOrganizationalExtension import XOrganizationalExten
 from opyenxes.extension.std.XSemanticExtension import XSemanticExtension
 from opyenxes.extension.std.XTimeExtension import XTimeExtension
 from opyenxes.extension.XExtensionParser import XExtensionParser
-from opyenxes.utils.SingletonClassGenerator import XExtensionManagerMetaclass
+from opyenxes.utils.SingletonClassGenerator import LOCK, XExtensionManagerMetaclass
 from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
 from opyenxes.log.XLogging import XLogging
 from opyenxes.log.XStdoutLoggingListener import show
@@ -43,11 +43,12 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         :param extension: The extension to be registered.
         :type extension: `XExtension`
         """
-        self.__extension_map[extension.get_uri()] = extension
-        if extension not in self.__extension_list:
-            self.__extension_list.append(extension)
-        else:
-            self.__extension_list[self.__extension_list.index(extension)] = extension
+        with LOCK:
+            self.__extension_map[extension.get_uri()] = extension
+            if extension not in self.__extension_list:
+                self.__extension_list.append(extension)
+            else:
+                self.__extension_list[self.__extension_list.index(extension)] = extension
 
     def get_by_uri(self, uri):
         """Retrieves an extension instance by its unique URI. If the extension
@@ -189,8 +190,7 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
                     try:
                         extension = XExtensionParser.parse(file_name)
                         if extension.get_uri() not in self.__extension_map:
-                            self.__extension_map[extension.get_uri()] = extension
-                            self.__extension_list.append(extension)
+                            self.register(extension)
                             XLogging().log("Loaded XES extension \'" +
                                            extension.get_uri().geturl() +
                                            "\' from cache",
-- 
2.43.0


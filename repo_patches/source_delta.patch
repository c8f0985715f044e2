From d3c00462dbcf8c027df1dbf5d0a644a051b8020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 01/10] fix: write the envelope's namespace declarations and
 read them from its own tag

---
 src/mx_envelope.rs | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index e83f091..de92ad1 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -236,7 +236,17 @@ impl MxMessage {
             .replace("</BusinessApplicationHeaderV02>", "</AppHdr>");
 
         let mut xml = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\"?>");
-        xml.push_str("<Envelope>");
+        xml.push_str("<Envelope");
+        if let Some(xmlns) = &self.xmlns {
+            xml.push_str(&format!(" xmlns=\"{}\"", quick_xml::escape::escape(xmlns)));
+        }
+        if let Some(xmlns_xsi) = &self.xmlns_xsi {
+            xml.push_str(&format!(
+                " xmlns:xsi=\"{}\"",
+                quick_xml::escape::escape(xmlns_xsi)
+            ));
+        }
+        xml.push('>');
         xml.push_str(&app_hdr_wrapped);
         xml.push_str("<Document>");
         xml.push_str(&doc_xml);
@@ -423,8 +433,9 @@ impl MxMessage {
         let document = Self::deserialize_document(&doc_xml, &doc_type)?;
 
         // Extract namespace attributes if present
-        let xmlns = Self::extract_attribute(xml, "xmlns");
-        let xmlns_xsi = Self::extract_attribute(xml, "xmlns:xsi");
+        let root_tag = xml.split("<AppHdr").next().unwrap_or(xml);
+        let xmlns = Self::extract_attribute(root_tag, "xmlns")?;
+        let xmlns_xsi = Self::extract_attribute(root_tag, "xmlns:xsi")?;
 
         Ok(MxMessage {
             xmlns,
@@ -460,11 +471,18 @@ impl MxMessage {
     }
 
     /// Extract XML attribute value
-    fn extract_attribute(xml: &str, attr: &str) -> Option<String> {
+    fn extract_attribute(xml: &str, attr: &str) -> Result<Option<String>, MxError> {
         let pattern = format!("{}=\"", attr);
-        let start_idx = xml.find(&pattern)? + pattern.len();
-        let end_idx = xml[start_idx..].find('"')? + start_idx;
-        Some(xml[start_idx..end_idx].to_string())
+        let Some((_, rest)) = xml.split_once(&pattern) else {
+            return Ok(None);
+        };
+        let Some((value, _)) = rest.split_once('"') else {
+            return Ok(None);
+        };
+        let value = quick_xml::escape::unescape(value).map_err(|e| {
+            MxError::XmlDeserialization(format!("Failed to parse attribute {}: {}", attr, e))
+        })?;
+        Ok(Some(value.into_owned()))
     }
 
     /// Detect document type from XML content
-- 
2.43.0


From fc108a43b1b44c3187c96daba8e8afb72629cb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:15 +0000
Subject: [PATCH 02/10] fix: let envelope validation accept what parsing
 accepts

---
 src/xml.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/xml.rs b/src/xml.rs
index a6d2eda..7f825f0 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -19,8 +19,8 @@ pub fn from_mx_xml_envelope_str(xml: &str, message_type: &str) -> Result<(), Xml
     let has_envelope = xml.contains("<AppHdr") || xml.contains("<Envelope");
 
     if !has_envelope {
-        // No envelope, validate using MxMessage which handles Document-only
-        MxMessage::from_xml(xml).map_err(|e| {
+        // No envelope, validate by decoding the Document with its own type
+        xml_to_json_via_document(xml, message_type).map_err(|e| {
             MxError::XmlDeserialization(format!(
                 "Failed to validate Document (message_type={}): {}",
                 message_type, e
@@ -31,7 +31,7 @@ pub fn from_mx_xml_envelope_str(xml: &str, message_type: &str) -> Result<(), Xml
 
     // Parse as full envelope with AppHdr - validate by attempting deserialization
     // All message types use the same BusinessApplicationHeaderV02
-    xml_from_str::<MxMessage>(xml).map_err(|e| {
+    MxMessage::from_xml(xml).map_err(|e| {
         MxError::XmlDeserialization(format!("Failed to parse {} envelope: {}", message_type, e))
     })?;
 
-- 
2.43.0


From e83053355744b54e031c36e56b6a4f2d4a253306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:15 +0000
Subject: [PATCH 03/10] fix: do not panic on a truncated or misordered Document

---
 src/plugin/common.rs | 2 +-
 src/xml.rs           | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/plugin/common.rs b/src/plugin/common.rs
index 9a05c5c..a36b0bd 100644
--- a/src/plugin/common.rs
+++ b/src/plugin/common.rs
@@ -93,7 +93,7 @@ pub fn extract_message_type_from_xml(xml_str: &str) -> Result<String> {
 
             // Find the first element after Document
             if let Some(elem_start) = after_doc.find('<')
-                && after_doc.as_bytes()[elem_start + 1] != b'/'
+                && after_doc.as_bytes().get(elem_start + 1) != Some(&b'/')
             {
                 let elem_name_start = elem_start + 1;
                 // Find the end of the element name (space or >)
diff --git a/src/xml.rs b/src/xml.rs
index 7f825f0..092375f 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -74,8 +74,9 @@ pub fn xml_to_json_via_document(
     let inner_xml = if let Some(start_idx) = inner_xml.find("<Document") {
         if let Some(end_bracket) = inner_xml[start_idx..].find('>') {
             let content_start = start_idx + end_bracket + 1;
-            if let Some(end_idx) = inner_xml.rfind("</Document>") {
-                &inner_xml[content_start..end_idx]
+            let content = &inner_xml[content_start..];
+            if let Some(end_idx) = content.rfind("</Document>") {
+                &content[..end_idx]
             } else {
                 inner_xml
             }
-- 
2.43.0


From b746c541f56ca18c4f82095420eb675735fd479a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:15 +0000
Subject: [PATCH 04/10] fix: parse Document-only pain.002, camt.055, camt.058,
 camt.105 and camt.106

---
 src/xml.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index 092375f..4b237d5 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -122,6 +122,11 @@ pub fn xml_to_json_via_document(
             pain_001_001_09::CustomerCreditTransferInitiationV09,
             "pain.001"
         ),
+        "pain.002" => xml_to_json_doc!(
+            inner_xml,
+            pain_002_001_10::CustomerPaymentStatusReportV10,
+            "pain.002"
+        ),
         "pain.008" => xml_to_json_doc!(
             inner_xml,
             pain_008_001_08::CustomerDirectDebitInitiationV08,
@@ -148,6 +153,11 @@ pub fn xml_to_json_via_document(
             camt_054_001_08::BankToCustomerDebitCreditNotificationV08,
             "camt.054"
         ),
+        "camt.055" => xml_to_json_doc!(
+            inner_xml,
+            camt_055_001_08::CustomerPaymentCancellationRequestV08,
+            "camt.055"
+        ),
         "camt.056" => xml_to_json_doc!(
             inner_xml,
             camt_056_001_08::FIToFIPaymentCancellationRequestV08,
@@ -158,11 +168,26 @@ pub fn xml_to_json_via_document(
             camt_057_001_06::NotificationToReceiveV06,
             "camt.057"
         ),
+        "camt.058" => xml_to_json_doc!(
+            inner_xml,
+            camt_058_001_08::NotificationToReceiveCancellationAdviceV08,
+            "camt.058"
+        ),
         "camt.060" => xml_to_json_doc!(
             inner_xml,
             camt_060_001_05::AccountReportingRequestV05,
             "camt.060"
         ),
+        "camt.105" => xml_to_json_doc!(
+            inner_xml,
+            camt_105_001_02::ChargesPaymentNotificationV02,
+            "camt.105"
+        ),
+        "camt.106" => xml_to_json_doc!(
+            inner_xml,
+            camt_106_001_02::ChargesPaymentRequestV02,
+            "camt.106"
+        ),
         "camt.107" => xml_to_json_doc!(
             inner_xml,
             camt_107_001_01::ChequePresentmentNotificationV01,
-- 
2.43.0


From 1a4e72ebd3cd3bf04976eab9d5e729b6cd499e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:15 +0000
Subject: [PATCH 05/10] fix: match patterns against the whole value

---
 src/validation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 86fd23e..138fe46 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -96,7 +96,8 @@ pub mod helpers {
         // Trim whitespace before validation
         let trimmed_value = value.trim();
 
-        let regex = match Regex::new(pattern) {
+        // The pattern constrains the whole value, not just a part of it
+        let regex = match Regex::new(&format!("^(?:{pattern})$")) {
             Ok(r) => r,
             Err(_) => {
                 collector.add_critical_error(
-- 
2.43.0


From 70824f9ff10c78fc277690bada301d8ccdaed71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:15 +0000
Subject: [PATCH 06/10] fix: stop at the first validation error when failing
 fast

---
 src/validation.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/validation.rs b/src/validation.rs
index 138fe46..f630f8f 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -41,6 +41,11 @@ pub mod helpers {
         config: &ParserConfig,
         collector: &mut ErrorCollector,
     ) -> bool {
+        // A failed message needs no further checks when failing fast
+        if config.fail_fast && collector.has_errors() {
+            return false;
+        }
+
         let mut valid = true;
 
         if let Some(min_len) = min
@@ -93,6 +98,11 @@ pub mod helpers {
         config: &ParserConfig,
         collector: &mut ErrorCollector,
     ) -> bool {
+        // A failed message needs no further checks when failing fast
+        if config.fail_fast && collector.has_errors() {
+            return false;
+        }
+
         // Trim whitespace before validation
         let trimmed_value = value.trim();
 
-- 
2.43.0


From 04e24a7a6fd436b5639236fb490d8badae1f6e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:15 +0000
Subject: [PATCH 07/10] fix: record the target's previous value in parse_mx and
 validate_mx

---
 src/plugin/parse.rs    | 8 +++++++-
 src/plugin/validate.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/plugin/parse.rs b/src/plugin/parse.rs
index c6dfa3a..d290618 100644
--- a/src/plugin/parse.rs
+++ b/src/plugin/parse.rs
@@ -111,6 +111,12 @@ impl Parse {
         debug!(message_type = %message_type, "Successfully parsed XML to JSON");
 
         // Store the parsed result in message data
+        let old_value = message
+            .data()
+            .get(target_field)
+            .cloned()
+            .unwrap_or(Value::Null);
+
         message
             .data_mut()
             .as_object_mut()
@@ -138,7 +144,7 @@ impl Parse {
             200,
             vec![Change {
                 path: Arc::from(format!("data.{}", target_field)),
-                old_value: Arc::new(Value::Null),
+                old_value: Arc::new(old_value),
                 new_value: Arc::new(parsed_data),
             }],
         ))
diff --git a/src/plugin/validate.rs b/src/plugin/validate.rs
index a124c8e..56a0c82 100644
--- a/src/plugin/validate.rs
+++ b/src/plugin/validate.rs
@@ -56,6 +56,12 @@ impl AsyncFunctionHandler for Validate {
         let validation_result = self.validate_xml(&xml_content)?;
 
         // Store validation result
+        let old_value = message
+            .data()
+            .get(target_field)
+            .cloned()
+            .unwrap_or(Value::Null);
+
         message
             .data_mut()
             .as_object_mut()
@@ -77,7 +83,7 @@ impl AsyncFunctionHandler for Validate {
             200,
             vec![Change {
                 path: Arc::from(format!("data.{}", target_field)),
-                old_value: Arc::new(Value::Null),
+                old_value: Arc::new(old_value),
                 new_value: Arc::new(validation_result),
             }],
         ))
-- 
2.43.0


From 9f9a92a58037321fadc7839f6228d816cd26ac45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:15 +0000
Subject: [PATCH 08/10] fix: report an error instead of panicking when data or
 metadata is not an object

---
 src/plugin/parse.rs    | 24 ++++++++++++++++--------
 src/plugin/publish.rs  |  6 +++++-
 src/plugin/validate.rs | 24 ++++++++++++++++--------
 3 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/src/plugin/parse.rs b/src/plugin/parse.rs
index d290618..3df4f25 100644
--- a/src/plugin/parse.rs
+++ b/src/plugin/parse.rs
@@ -117,19 +117,27 @@ impl Parse {
             .cloned()
             .unwrap_or(Value::Null);
 
+        if !message.metadata().is_object() {
+            return Err(DataflowError::Validation(
+                "Message metadata must be an object".to_string(),
+            ));
+        }
+
         message
             .data_mut()
             .as_object_mut()
-            .unwrap()
+            .ok_or_else(|| DataflowError::Validation("Message data must be an object".to_string()))?
             .insert(target_field.to_string(), parsed_data.clone());
 
-        message.metadata_mut().as_object_mut().unwrap().insert(
-            target_field.to_string(),
-            json!({
-                "message_type": message_type,
-                "format": "json",
-            }),
-        );
+        if let Some(metadata) = message.metadata_mut().as_object_mut() {
+            metadata.insert(
+                target_field.to_string(),
+                json!({
+                    "message_type": message_type,
+                    "format": "json",
+                }),
+            );
+        }
 
         debug!(
             message_type = %message_type,
diff --git a/src/plugin/publish.rs b/src/plugin/publish.rs
index c16c38d..4023561 100644
--- a/src/plugin/publish.rs
+++ b/src/plugin/publish.rs
@@ -76,7 +76,11 @@ impl AsyncFunctionHandler for Publish {
             .cloned()
             .unwrap_or(Value::Null);
 
-        message.data_mut()[target_field] = Value::String(mx_message.clone());
+        message
+            .data_mut()
+            .as_object_mut()
+            .ok_or_else(|| DataflowError::Validation("Message data must be an object".to_string()))?
+            .insert(target_field.to_string(), Value::String(mx_message.clone()));
 
         // Invalidate cache after modifications
         message.invalidate_context_cache();
diff --git a/src/plugin/validate.rs b/src/plugin/validate.rs
index 56a0c82..752a305 100644
--- a/src/plugin/validate.rs
+++ b/src/plugin/validate.rs
@@ -62,20 +62,28 @@ impl AsyncFunctionHandler for Validate {
             .cloned()
             .unwrap_or(Value::Null);
 
+        if !message.metadata().is_object() {
+            return Err(DataflowError::Validation(
+                "Message metadata must be an object".to_string(),
+            ));
+        }
+
         message
             .data_mut()
             .as_object_mut()
-            .unwrap()
+            .ok_or_else(|| DataflowError::Validation("Message data must be an object".to_string()))?
             .insert(target_field.to_string(), validation_result.clone());
 
         // Update metadata with validation summary
-        message.metadata_mut().as_object_mut().unwrap().insert(
-            "validation".to_string(),
-            json!({
-                "validated": true,
-                "timestamp": chrono::Utc::now().to_rfc3339(),
-            }),
-        );
+        if let Some(metadata) = message.metadata_mut().as_object_mut() {
+            metadata.insert(
+                "validation".to_string(),
+                json!({
+                    "validated": true,
+                    "timestamp": chrono::Utc::now().to_rfc3339(),
+                }),
+            );
+        }
 
         message.invalidate_context_cache();
 
-- 
2.43.0


From 4c70b988a7016f8a6e825803e6553189f3fd557d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:30 +0000
Subject: [PATCH 09/10] fix: do not take text inside a namespace value for the
 next declaration

---
 src/mx_envelope.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index de92ad1..1ce2b7a 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -472,17 +472,21 @@ impl MxMessage {
 
     /// Extract XML attribute value
     fn extract_attribute(xml: &str, attr: &str) -> Result<Option<String>, MxError> {
-        let pattern = format!("{}=\"", attr);
-        let Some((_, rest)) = xml.split_once(&pattern) else {
-            return Ok(None);
-        };
-        let Some((value, _)) = rest.split_once('"') else {
-            return Ok(None);
-        };
-        let value = quick_xml::escape::unescape(value).map_err(|e| {
-            MxError::XmlDeserialization(format!("Failed to parse attribute {}: {}", attr, e))
-        })?;
-        Ok(Some(value.into_owned()))
+        // Step from one quoted value to the next: text inside a value is never an attribute
+        let mut rest = xml;
+        while let Some((before, after)) = rest.split_once("=\"") {
+            let Some((value, tail)) = after.split_once('"') else {
+                break;
+            };
+            if before.split_whitespace().next_back() == Some(attr) {
+                let value = quick_xml::escape::unescape(value).map_err(|e| {
+                    MxError::XmlDeserialization(format!("Failed to parse attribute {}: {}", attr, e))
+                })?;
+                return Ok(Some(value.into_owned()));
+            }
+            rest = tail;
+        }
+        Ok(None)
     }
 
     /// Detect document type from XML content
-- 
2.43.0


From 8a42269ad58f858fa06df5ac1b7028b1f8ca0358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:33 +0000
Subject: [PATCH 10/10] fix: end a document element's name at any white space

---
 src/plugin/common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plugin/common.rs b/src/plugin/common.rs
index a36b0bd..b1fbb48 100644
--- a/src/plugin/common.rs
+++ b/src/plugin/common.rs
@@ -96,9 +96,9 @@ pub fn extract_message_type_from_xml(xml_str: &str) -> Result<String> {
                 && after_doc.as_bytes().get(elem_start + 1) != Some(&b'/')
             {
                 let elem_name_start = elem_start + 1;
-                // Find the end of the element name (space or >)
+                // Find the end of the element name (white space, > or /)
                 let elem_name_end = after_doc[elem_name_start..]
-                    .find([' ', '>', '/'])
+                    .find(|c: char| c.is_whitespace() || c == '>' || c == '/')
                     .map(|i| elem_name_start + i)
                     .unwrap_or(after_doc.len());
 
-- 
2.43.0


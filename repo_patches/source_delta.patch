From d3f6e200385e50958f483adde95eeaacd3d797f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 01/14] fix: token table entries for N..A..S/M and K..F..A
 cruise climb level pairs

---
 F15_Parser/F15TokenSyntaxDescriptions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/F15_Parser/F15TokenSyntaxDescriptions.py b/F15_Parser/F15TokenSyntaxDescriptions.py
index ebb3cfb..c3e634d 100644
--- a/F15_Parser/F15TokenSyntaxDescriptions.py
+++ b/F15_Parser/F15TokenSyntaxDescriptions.py
@@ -319,11 +319,11 @@ class F15TokenSyntaxDefinition:
          TokenSubType.F15_SB_SPEED_ALTITUDE_NSM],
         ["N[0-9]{4}A[0-9]{3}F[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NAF],
-        ["N[0-9]{4}A[0-9]{4}S[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
+        ["N[0-9]{4}A[0-9]{3}S[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NAS],
         ["N[0-9]{4}A[0-9]{3}A[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NAA],
-        ["N[0-9]{4}A[0-9]{4}M[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
+        ["N[0-9]{4}A[0-9]{3}M[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NAM],
         ["N[0-9]{4}M[0-9]{4}F[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NMF],
@@ -338,7 +338,7 @@ class F15TokenSyntaxDefinition:
         ["K[0-9]{4}F[0-9]{3}S[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_KFS],
         ["K[0-9]{4}F[0-9]{3}A[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
-         TokenSubType.F15_SB_SPEED_ALTITUDE_KFS],
+         TokenSubType.F15_SB_SPEED_ALTITUDE_KFA],
         ["K[0-9]{4}F[0-9]{3}M[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_KFM],
         ["K[0-9]{4}S[0-9]{4}F[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
-- 
2.43.0


From 6742d07912dc443374ff29da61566ef082d6bdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 02/14] fix: upper cruise climb level lost its unit letter for
 most unit combinations

---
 F15_Parser/F15Parse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 1e7c25d..44899f5 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -548,21 +548,21 @@ class ParseF15:
                     TokenSubType.F15_SB_SPEED_ALTITUDE_NMF | TokenSubType.F15_SB_SPEED_ALTITUDE_NMS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_NMA | TokenSubType.F15_SB_SPEED_ALTITUDE_NMM:
                 self.assign_altitude(ers, token, ex_route_rec, token_string[5:10], False)
-                self.assign_altitude(ers, token, ex_route_rec, token_string[11:], True)
+                self.assign_altitude(ers, token, ex_route_rec, token_string[10:], True)
                 self.assign_speed(ex_route_rec, token_string[0:5])
             case TokenSubType.F15_SB_SPEED_ALTITUDE_MFF | TokenSubType.F15_SB_SPEED_ALTITUDE_MFS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MFA | TokenSubType.F15_SB_SPEED_ALTITUDE_MFM | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MAF | TokenSubType.F15_SB_SPEED_ALTITUDE_MAS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MAA | TokenSubType.F15_SB_SPEED_ALTITUDE_MAM:
                 self.assign_altitude(ers, token, ex_route_rec, token_string[4:8], False)
-                self.assign_altitude(ers, token, ex_route_rec, token_string[9:], True)
+                self.assign_altitude(ers, token, ex_route_rec, token_string[8:], True)
                 self.assign_speed(ex_route_rec, token_string[0:4])
             case TokenSubType.F15_SB_SPEED_ALTITUDE_MSF | TokenSubType.F15_SB_SPEED_ALTITUDE_MSS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MSA | TokenSubType.F15_SB_SPEED_ALTITUDE_MSM | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MMF | TokenSubType.F15_SB_SPEED_ALTITUDE_MMS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MMA | TokenSubType.F15_SB_SPEED_ALTITUDE_MMM:
                 self.assign_altitude(ers, token, ex_route_rec, token_string[4:9], False)
-                self.assign_altitude(ers, token, ex_route_rec, token_string[10:], True)
+                self.assign_altitude(ers, token, ex_route_rec, token_string[9:], True)
                 self.assign_speed(ex_route_rec, token_string[0:4])
             case _:
                 self.assign_altitude(ers, token, ex_route_rec, "X000", False)
-- 
2.43.0


From 61a7290b4bf488355bb2ee53ce55996245463dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 03/14] fix: get_element_at returns None for the index one past
 the end

---
 F15_Parser/ExtractedRouteSequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/F15_Parser/ExtractedRouteSequence.py b/F15_Parser/ExtractedRouteSequence.py
index e6a8ad2..a81e737 100644
--- a/F15_Parser/ExtractedRouteSequence.py
+++ b/F15_Parser/ExtractedRouteSequence.py
@@ -147,7 +147,7 @@ class ExtractedRouteSequence:
 
         :param index: The index of the extracted route record to be retrieved;
         :return: An instance of ExtractedRouteRecord located at index provided or None if index is out of range;"""
-        if index < 0 or index > self.get_number_of_elements():
+        if index < 0 or index >= self.get_number_of_elements():
             return None
         return self.extracted_route_records[index]
 
-- 
2.43.0


From 6dafb9eb31a3d1ee018ad1461f5145999c5c0528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 04/14] fix: escape element names, break text and error text in
 the XML output

---
 F15_Parser/ExtractedRouteRecord.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/F15_Parser/ExtractedRouteRecord.py b/F15_Parser/ExtractedRouteRecord.py
index 1fb9f8a..1fe6729 100644
--- a/F15_Parser/ExtractedRouteRecord.py
+++ b/F15_Parser/ExtractedRouteRecord.py
@@ -1,3 +1,5 @@
+from xml.sax.saxutils import escape
+
 from F15_Parser.F15TokenSyntaxDescriptions import TokenBaseType, TokenSubType
 
 
@@ -566,5 +568,5 @@ class ExtractedRouteRecord:
                " altitude_cruise_to_si=\"" + "{0:.2f}".format(self.get_altitude_cruise_to_si()) + "\"" + \
                " latitude=\"" + "{0:>.2f}".format(self.get_latitude()) + "\"" + \
                " longitude=\"" + "{0:>.2f}".format(self.get_longitude()) + "\"" + \
-               " " + attr_name + "=\"" + error_or_break + "\"" + \
-               ">" + self.get_name() + "</" + rec_type + ">"
+               " " + attr_name + "=\"" + escape(error_or_break, {"\"": "&quot;"}) + "\"" + \
+               ">" + escape(self.get_name()) + "</" + rec_type + ">"
-- 
2.43.0


From b2e8b61d2723de997f41e056576c7ac0fa035ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 05/14] fix: example imports the package under its actual name

---
 main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.py b/main.py
index 8c65f08..5a130e3 100644
--- a/main.py
+++ b/main.py
@@ -1,5 +1,5 @@
-from Parser.ExtractedRouteSequence import ExtractedRouteSequence
-from Parser.F15Parse import ParseF15
+from F15_Parser.ExtractedRouteSequence import ExtractedRouteSequence
+from F15_Parser.F15Parse import ParseF15
 from Tokenizer.Tokenize import Tokenize
 
 # Example usage of the ICAO field 15 parser.
-- 
2.43.0


From 1be8ffe696d530dbc54dc265c364aa3e68cd081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:31 +0000
Subject: [PATCH 06/14] fix: decode and check the point of a VFR to IFR to VFR
 rule change

---
 F15_Parser/F15Parse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 44899f5..dcc30b8 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -1675,6 +1675,11 @@ class ParseF15:
         token = tokens.get_next_token()
         ex_route_rec = self.add_record(ers, token)
 
+        # Check lat/long and bearing distance semantics
+        if token.get_token_sub_type() != TokenSubType.F15_SB_PRP and \
+                token.get_token_sub_type() != TokenSubType.F15_SB_PRP_AERO:
+            self.assign_lat_long_bearing_distance(ers, token)
+
         # As this rule change is VFR to IFR and this is a speed altitude element,
         # the rules must be IFR
         ex_route_rec.set_flight_rules(self.RULES["I"])
-- 
2.43.0


From 990bbb644503035a35dbe31fbd06a93e376f60ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 07/14] fix: keep source order when a lat/long point follows an
 ATS route

---
 F15_Parser/F15Parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index dcc30b8..21f3891 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -1380,7 +1380,7 @@ class ParseF15:
                 if sub_type == TokenSubType.F15_SB_PRP_BD or sub_type == TokenSubType.F15_SB_LL_DEG or \
                     sub_type == TokenSubType.F15_SB_LL_MIN or sub_type == TokenSubType.F15_SB_LLBD_DEG or \
                         sub_type == TokenSubType.F15_SB_LLBD_MIN:
-                    self.add_error_and_re_sync(ers, tokens, next_token, 48)
+                    self.add_error_no_re_sync(ers, next_token, 48)
                 self.point(ers, tokens, next_token)
             case TokenBaseType.F15_ROUTE:
                 self.add_error_and_re_sync(ers, tokens, next_token, 53)
-- 
2.43.0


From 15ff3ccf128ef5dd173586e907b82ecdfab4a999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 08/14] fix: do not drop the rest of field 15 after a break end
 met while re-synchronising

---
 F15_Parser/F15Parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 21f3891..334dfb7 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -1304,6 +1304,8 @@ class ParseF15:
                 self.assign_speed_vfr(ers, tokens, token)
             case TokenBaseType.F15_BREAK_END:
                 self.break_end(ers, tokens, token)
+                # No rule change took place, continue with what follows
+                self.re_sync_parser_after_error(ers, tokens)
             case TokenBaseType.F15_DCT:
                 self.dct(ers, tokens, token)
             case TokenBaseType.F15_STAY:
-- 
2.43.0


From 3327efcb43fd781cb0798c66b7edd65e9be5928d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 09/14] fix: a too long element stays in its break section

---
 F15_Parser/F15Parse.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 334dfb7..9cd5d07 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -812,11 +812,7 @@ class ParseF15:
         next_token = tokens.get_next_token()
         if next_token is None:
             return
-        base_type = next_token.get_token_base_type()
-        if base_type is TokenBaseType.F15_TOO_LONG:
-            self.add_error_and_re_sync(ers, tokens, next_token, 4)
-        else:
-            self.break_text_save(ers, tokens, next_token)
+        self.break_text_save(ers, tokens, next_token)
 
     def break_text_save(self, ers, tokens, token):
         # type: (ExtractedRouteSequence, Tokens, Token) -> None
@@ -836,7 +832,7 @@ class ParseF15:
         """
         base_type = token.get_token_base_type()
         if base_type is TokenBaseType.F15_TOO_LONG:
-            self.add_error_and_re_sync(ers, tokens, token, 4)
+            self.add_error_no_re_sync(ers, token, 4)
 
         # Save the token as break text
         last_ers = ers.get_last_element()
-- 
2.43.0


From e84f2715d81642087e181564b3b033c278362e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 10/14] fix: report a cruise climb position that is not a
 point, and a missing '/' only once

---
 F15_Parser/F15Parse.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 9cd5d07..4ad8a9a 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -970,6 +970,12 @@ class ParseF15:
         :param token: The point in a cruise/climb element;
         :return: None
         """
+        # Only a point can be climbed at
+        if token.get_token_base_type() is not TokenBaseType.F15_POINT and \
+                token.get_token_base_type() is not TokenBaseType.F15_C:
+            self.add_error_and_re_sync(ers, tokens, token, 18)
+            return
+
         # Save the cruise / climb point
         self.add_record(ers, token)
 
@@ -984,6 +990,7 @@ class ParseF15:
         base_type = next_token.get_token_base_type()
         if base_type is not TokenBaseType.F15_SLASH:
             self.add_error_and_re_sync(ers, tokens, next_token, 26)
+            return
 
         # Skip the forward slash and get the SPEED/ALTITUDE/ALTITUDE or
         # SPEED / ALTITUDE / PLUS token
-- 
2.43.0


From 7ff0df3a29b397a03a1fa49f707b5ff7fd91ae0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 11/14] fix: an ATS route cannot follow a lat/long point with a
 STAY either

---
 F15_Parser/F15Parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 4ad8a9a..76a5877 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -1591,7 +1591,8 @@ class ParseF15:
             case TokenBaseType.F15_POINT:
                 self.point(ers, tokens, next_token)
             case TokenBaseType.F15_ROUTE:
-                self.route(ers, tokens, next_token)
+                # The last record is the 'stay' point, same rules as after a point
+                self.post_point(ers, tokens, next_token)
             case TokenBaseType.F15_SID_STAR:
                 self.sid_star(ers, tokens, next_token)
             case TokenBaseType.F15_TOO_LONG:
-- 
2.43.0


From f8b1d339ceaf55d483d7e47d3baf859d22328f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 12/14] fix: no azimuth and distance across a point without
 coordinates

---
 F15_Parser/F15Parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 76a5877..7519b0d 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -249,7 +249,8 @@ class ParseF15:
                 # Set azimuth and distance between the two points at the previous
                 # point.
                 self.set_azimuth_and_distance(last_but_one_ers, last_ers)
-            else:
+            elif last_but_one_ers.get_base_type() != TokenBaseType.F15_POINT and \
+                    last_but_one_ers.get_base_type() != TokenBaseType.F15_C:
                 # Go back one more ERS element and check if this is a point
                 last_minus_two_ers = ers.get_element_at(ers.get_number_of_elements()-3)
                 if last_minus_two_ers is None:
-- 
2.43.0


From 74afa4563225df99c6a8617775548a2529cd0855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:30 +0000
Subject: [PATCH 13/14] fix: report a lat/long cruise climb point after an ATS
 route

---
 F15_Parser/F15Parse.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 7519b0d..372c086 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -977,6 +977,13 @@ class ParseF15:
             self.add_error_and_re_sync(ers, tokens, token, 18)
             return
 
+        # A Lat/Long point cannot follow an ATS route, not even to climb at
+        if ers.get_last_element().get_base_type() == TokenBaseType.F15_ROUTE and \
+                token.get_token_sub_type() in (TokenSubType.F15_SB_PRP_BD, TokenSubType.F15_SB_LL_DEG,
+                                               TokenSubType.F15_SB_LL_MIN, TokenSubType.F15_SB_LLBD_DEG,
+                                               TokenSubType.F15_SB_LLBD_MIN):
+            self.add_error_no_re_sync(ers, token, 48)
+
         # Save the cruise / climb point
         self.add_record(ers, token)
 
-- 
2.43.0


From 5dbcb1a5785c3b578d20c9bd7af0d89e35bb34e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 14/14] fix: a climb to PLUS does not keep the upper level of
 an earlier cruise climb

---
 F15_Parser/F15Parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 372c086..7c3fb45 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -599,6 +599,8 @@ class ParseF15:
             return
         token_string = token.get_token_string()
         sub_type = token.get_token_sub_type()
+        # A climb to 'PLUS' has no upper level, do not keep the one of an earlier cruise climb
+        ex_route_rec.set_altitude_cruise_to_si(0)
         match sub_type:
             case TokenSubType.F15_SB_SPEED_ALTITUDE_KF_P | TokenSubType.F15_SB_SPEED_ALTITUDE_KA_P | \
                  TokenSubType.F15_SB_SPEED_ALTITUDE_NF_P | TokenSubType.F15_SB_SPEED_ALTITUDE_NA_P:
-- 
2.43.0


From 90ffe9d52b8790609c8a1ad81c2488c98e0ea5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 01/50] fix: isCertain("min") looked up a component that does
 not exist

---
 src/result.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/result.cpp b/src/result.cpp
index 4ddd4a2..c4d0551 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -275,7 +275,7 @@ bool ParsedComponents::isCertain(std::string comp) {
         return knownValues["hour"].first;
 
     else if(!comp.compare("min"))
-        return knownValues["minute"].first;
+        return knownValues["min"].first;
 
     else if(!comp.compare("sec"))
         return knownValues["sec"].first;
-- 
2.43.0


From b028b1759dd011d1c361814821abef51be6b7516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 02/50] fix: setting a tag had no effect once the tag had been
 queried

---
 src/result.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/result.cpp b/src/result.cpp
index c4d0551..e93b95d 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -458,8 +458,7 @@ size_t ParsedResult::textLength() const {
 }
 
 void ParsedResult::setTag(utils::Modifiers tag_name) {
-    if(tags.count(tag_name) < 1)
-        this->tags.insert({tag_name, true});
+    tags[tag_name] = true;
 }
 
 bool ParsedResult::isEmpty() const {
-- 
2.43.0


From d173f2865a62931a358d9d64f8a71c11ea217b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 03/50] fix: toDate converts both ends of a result to UTC
 (local time minus offset)

---
 src/result.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/result.cpp b/src/result.cpp
index e93b95d..fe410ce 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -418,7 +418,7 @@ std::string ParsedResult::toDate() {
     // posix_time::ptime st =  us_eastern::local_to_utc(posix_time::ptime_from_tm(date_start));
 
     if(getTag(utils::ExtractTimeZoneAbbreviation))
-        st += posix_time::minutes(startDate.getTimeZoneOffset());
+        st -= posix_time::minutes(startDate.getTimeZoneOffset());
 
     res = posix_time::to_simple_string(st);
 
@@ -432,9 +432,9 @@ std::string ParsedResult::toDate() {
 
         posix_time::ptime ed = posix_time::ptime_from_tm(date_end);
         if(getTag(utils::ExtractTimeZoneAbbreviation))
-            ed += posix_time::minutes(startDate.getTimeZoneOffset());
+            ed -= posix_time::minutes(endDate.getTimeZoneOffset());
 
-        res += " - " + posix_time::to_simple_string(posix_time::ptime_from_tm(date_end));
+        res += " - " + posix_time::to_simple_string(ed);
     }
 
     return res;
-- 
2.43.0


From ec0d5ddf6c210a689ce6630f1fc290ae1e788292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 04/50] fix: a phrase naming an unrepresentable number or date
 no longer throws out of execute

---
 src/parsers/parsers.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parsers/parsers.cpp b/src/parsers/parsers.cpp
index a4056df..2cb32d2 100644
--- a/src/parsers/parsers.cpp
+++ b/src/parsers/parsers.cpp
@@ -42,7 +42,12 @@ Result Parser::execute(std::string& text, posix_time::ptime& ref) {
         idx = match.position(0) + text.length() - remainingText.length();
 
         parse::ParsedResult res{};
-        res = extract(remainingText, match, ref, idx);
+        try {
+            res = extract(remainingText, match, ref, idx);
+        } // numbers or dates that can not be represented
+        catch (std::exception& err) {
+            std::cerr << err.what() << std::endl;
+        }
 
         if(/*!strictMode or */res.hasPossibleDates()) {
             results.push_back(res);
-- 
2.43.0


From 97570c2e0cbc913097ab6d9482ad4ca10ade9c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 05/50] fix: results that are not a real date and time are not
 reported

---
 src/result.cpp | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/src/result.cpp b/src/result.cpp
index fe410ce..b97130b 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -289,26 +289,18 @@ bool ParsedComponents::isCertain(std::string comp) {
 }
 
 bool ParsedComponents::isPossibleDate() {
-    // needs implementation
-    // std::time_t tmp = std::time(nullptr);
-    std::tm tmp, tmp1; // = std::gmtime(&tmp);
-
-    tmp1.tm_year = getYear();
-    tmp1.tm_mon  = getMonth()-1;
-    tmp1.tm_mday = get_mDay();
-    tmp1.tm_hour = getHour();
-    tmp1.tm_min  = getMinute();
-    tmp1.tm_sec  = getSeconds();
-
-    posix_time::ptime tmp2 = posix_time::ptime_from_tm(tmp1);
-    tmp = posix_time::to_tm(tmp2);
-
-    if(tmp.tm_year != getYear())    return false;
-    if(tmp.tm_mon  != getMonth()-1) return false;
-    if(tmp.tm_mday != get_mDay())   return false;
-    if(tmp.tm_wday != get_wDay())   return false;
-    if(tmp.tm_hour != getHour())    return false;
-    if(tmp.tm_min  != getMinute())  return false;
+    if(getHour()    < 0 or getHour()    > 24) return false;
+    if(getMinute()  < 0 or getMinute()  > 59) return false;
+    if(getSeconds() < 0 or getSeconds() > 59) return false;
+
+    try {
+        // rejects years, months & days that do not exist
+        gregorian::date tmp(getYear(), getMonth(), get_mDay());
+        if(tmp.year() != getYear()) return false;
+    }
+    catch (std::out_of_range&) {
+        return false;
+    }
 
     /*
     if(knownValues["year"].first  == false and
@@ -393,8 +385,7 @@ bool ParsedResult::hasPossibleDates() {
        startDate.getSeconds() == 0 and end() == false)
         return false;
 
-    //return startDate.isPossibleDate() and (!end() or endDate.isPossibleDate());
-    return true;
+    return startDate.isPossibleDate() and (!end() or endDate.isPossibleDate());
 }
 
 ParsedResult::~ParsedResult() { }
-- 
2.43.0


From 560dc06b1cba8409529addb1b2104e9c4eb17896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 06/50] fix: ISO offsets between -00:59 and -00:01 lost their
 sign

---
 src/parsers/en/ENISOFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENISOFormatParser.hpp b/src/parsers/en/ENISOFormatParser.hpp
index 0b88a6a..c1ff82f 100644
--- a/src/parsers/en/ENISOFormatParser.hpp
+++ b/src/parsers/en/ENISOFormatParser.hpp
@@ -64,7 +64,7 @@
                     }
 
                     int offset = hourOffset * 60;
-                    if(offset < 0) {
+                    if(match.str(TZD_HOUR_OFFSET_GROUP)[0] == '-') {
                         offset -= minuteOffset;
                     }
                     else {
-- 
2.43.0


From 2528ac8e2e5aea23ced0fc7f190f219cc11d9953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 07/50] fix: the weekday pattern had unbalanced groups and
 never compiled

---
 src/parsers/en/ENDayOfTheWeekParser.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers/en/ENDayOfTheWeekParser.hpp b/src/parsers/en/ENDayOfTheWeekParser.hpp
index 3f314c7..489b217 100644
--- a/src/parsers/en/ENDayOfTheWeekParser.hpp
+++ b/src/parsers/en/ENDayOfTheWeekParser.hpp
@@ -22,11 +22,11 @@
         std::regex getPattern() const override {
             static const std::regex PATTERN {
                 R"((\b))"
-                    R"((earl(?:ier|y)|late)?)"
-                        R"((?:\s*(this|last|next)\s*)?))"
+                    R"((?:(earl(?:ier|y)|late)\s*)?)"
+                        R"((?:(this|last|next)\s*)?)"
                             R"((Sun(?:day)?|Mon(?:day)?|Tue(?:s(?:day)?)?|Wed(?:nesday)?|Thu(?:r(?:s(?:day)?)?)?|Fri(?:day)?|Sat(?:urday)?))"
-                                R"((?:\s*(this|last|next)\s*)?(?:(week)\s*)?)"
-                R"((\b)", /* part of pattern (on\s*)?*/
+                                R"((?:\s*(this|last|next))?(?:\s*(week))?)"
+                R"((\b))", /* part of pattern (on\s*)?*/
             std::regex::icase};
 
             return PATTERN;
-- 
2.43.0


From 321a9afee2cebd4662f32518da6fa261d80c8884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 08/50] fix: "half" a unit was truncated to zero units

---
 src/utils/utils.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 1c00386..27d8c94 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -63,6 +63,25 @@ std::map<std::string, float> utils::collectDateTimeFragment(std::smatch match, s
     }
 
     std::string element{match[2].str()};
+
+    if(num == 0.5) {
+        // dates only move by whole units, so half of a unit is expressed in lower ones
+        if(std::regex_search(element, std::regex("hour", std::regex::icase)))
+            fragments["minute"] += 30;
+        else if(std::regex_search(element, std::regex("min", std::regex::icase)))
+            fragments["second"] += 30;
+        else if(std::regex_search(element, std::regex("week", std::regex::icase)))
+            fragments["day"] += 3;
+        else if(std::regex_search(element, std::regex("day", std::regex::icase)))
+            fragments["hour"] += 12;
+        else if(std::regex_search(element, std::regex("month", std::regex::icase)))
+            fragments["day"] += 15;
+        else if(std::regex_search(element, std::regex("year", std::regex::icase)))
+            fragments["month"] += 6;
+
+        return fragments;
+    }
+
     if(std::regex_search(element, std::regex("hour", std::regex::icase)))
         fragments["hour"] = num;
     else if(std::regex_search(element, std::regex("min", std::regex::icase)))
-- 
2.43.0


From b5924be3f6ec55444c282b82fb37057e1bddedbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 09/50] fix: the pattern of "... ago" required a literal
 backslash

---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 22d6a8d..68c0bec 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -13,7 +13,7 @@
             static const std::regex PATTERN = std::regex(
                     R"((\b)(?:within\s*)?((?:((?:one|two|three|four|five|six|seven|eight|nine|)"
                     R"(ten|eleven|twelve)|[0-9]+|an?(?:\s*few)?|half(?:\s*an?)?)\s*(sec(?:onds?)?|)"
-                    R"(min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\\s*)+)(?:ago|before|earlier))"
+                    R"(min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\s*)+)(?:ago|before|earlier))"
                     R"((\b))", std::regex::icase);
             return PATTERN;
         }
-- 
2.43.0


From 37d3ae80392fcfd2d342ccf0b60dbc028bac5b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 10/50] fix: "... ago" threw when it was preceded by more text
 than it is long

---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 68c0bec..2e0022d 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -24,7 +24,7 @@
             std::string text = match.str(FULL_MATCH);
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
-            if(match.position(0) > 0 and std::regex_match(text.substr(match.position(0) - 1), std::regex("\\w"))) {
+            if(match.position(0) > 0 and std::regex_match(tx.substr(match.position(0) - 1), std::regex("\\w"))) {
                 return result;
             }
 
-- 
2.43.0


From eaee738925655598985bf95b116f9ad26b96bf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 11/50] fix: "... ago" lost the day when days and hours
 together cross midnight

---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 2e0022d..44960a6 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -58,6 +58,9 @@
                 }
             }
 
+            // hours, minutes and seconds may have crossed midnight
+            date += date_t.date() - ref.date();
+
             if(fragments["hour"] > 0 or fragments["minute"] > 0 or fragments["second"] > 0) {
                 result.startDate.setHour(date_t.time_of_day().hours());
                 result.startDate.setMinute(date_t.time_of_day().minutes());
-- 
2.43.0


From f740b992e1caf4a382d2c2149ee841bd20de7e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 12/50] fix: the pattern of "... later" required a literal
 quote and backslash

---
 src/parsers/en/ENTimeLaterParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index 30fed1f..a22cf1f 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -17,8 +17,8 @@
                         R"(((?:one|two|three|four|five|six|seven|eight|nine|ten|eleven|twelve)|)"
                         R"([0-9]+)"
                         R"(|an?(?:\s*few)?|half(?:\s+an?)?)"
-                    R"(")\s+)"
-                    R"((sec(?:onds?)?|min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\\s*)+))"
+                    R"()\s+)"
+                    R"((sec(?:onds?)?|min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\s*)+))"
                         R"((?:later|after|from now|henceforth|forward|out))"
                 R"((\b))", std::regex::icase};
             return PATTERN;
-- 
2.43.0


From cfb98b51e6844114246d9c2ce5ce42986f16bc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 13/50] fix: "... later" threw when it was preceded by more
 text than it is long

---
 src/parsers/en/ENTimeLaterParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index a22cf1f..326ff05 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -24,12 +24,12 @@
             return PATTERN;
         }
 
-        parse::ParsedResult extract(std::string&, const std::smatch& match, const posix_time::ptime& ref, long idx)
+        parse::ParsedResult extract(std::string& tx, const std::smatch& match, const posix_time::ptime& ref, long idx)
         override {
             std::string text = match.str(FULL_MATCH).substr(match.length(1));
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
-            if (match.position(0) > 0 and std::regex_match(text.substr(match.position(0) - 1), std::regex("\\w")))
+            if (match.position(0) > 0 and std::regex_match(tx.substr(match.position(0) - 1), std::regex("\\w")))
                 return result;
 
             std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
-- 
2.43.0


From 4ad2a070a78fd17884a57572b8f327d59ef6c36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 14/50] fix: "... later" lost the day when days and hours
 together cross midnight

---
 src/parsers/en/ENTimeLaterParser.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index 326ff05..4022b11 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -63,6 +63,9 @@
                 }
             }
 
+            // hours, minutes and seconds may have crossed midnight
+            date += date_t.date() - ref.date();
+
             if(fragments["hour"] > 0 or fragments["minute"] > 0 or fragments["second"] > 0) {
                 result.startDate.setHour(date_t.time_of_day().hours());
                 result.startDate.setMinute(date_t.time_of_day().minutes());
-- 
2.43.0


From 1e37fc58903666a0b84d9f7958e71732280ac094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 15/50] fix: deadlines in hours, minutes or seconds that cross
 midnight kept the old date

---
 src/parsers/en/ENDeadlineFormatParser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index 94257d3..fbd6f67 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -128,9 +128,9 @@
             } else if (!match.str(4).find("second")) {
                 tmpTime += posix_time::seconds(static_cast<int>(ceil(num)));
             }
-            result.startDate.implyComponent("year", tmpDate.year());
-            result.startDate.implyComponent("month", tmpDate.month());
-            result.startDate.implyComponent("mday", tmpDate.day());
+            result.startDate.implyComponent("year", tmpTime.date().year());
+            result.startDate.implyComponent("month", tmpTime.date().month());
+            result.startDate.implyComponent("mday", tmpTime.date().day());
             result.startDate.implyComponent("hour", tmpTime.time_of_day().hours());
             result.startDate.implyComponent("min", tmpTime.time_of_day().minutes());
             result.startDate.implyComponent("sec", tmpTime.time_of_day().seconds());
-- 
2.43.0


From 8f771ccc2ed4460a33d23e529ab9c9ef944b0ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 16/50] fix: abbreviated units of deadlines (min, hr, sec, wk,
 yr) were accepted and ignored

---
 src/parsers/en/ENDeadlineFormatParser.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index fbd6f67..c370051 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -61,7 +61,7 @@
              * so to support half (when num == 0.5) use lower time field
              * i.e: instead of hours(0.5) use minutes(30) e.t.c
              */
-            std::regex dwmy(("day|week|month|year"));
+            std::regex dwmy(("day|w(ee)?k|month|y(ea)?r"));
             if(std::regex_search(match.str(4), dwmy)) {
                 if(match.str(4).find("day") != std::string::npos) {
                     if(floor(num) == num) {
@@ -80,7 +80,7 @@
                         return result;
                     }
                 }
-                else if(match.str(4).find("week") != std::string::npos) {
+                else if(!match.str(4).find("w")) {
                     if(floor(num) == num) {
                         tmpDate += gregorian::weeks(num);
                     }
@@ -96,7 +96,7 @@
                         tmpDate += gregorian::days(15);
                     }
                 }
-                else if(match.str(4).find("year") != std::string::npos) {
+                else if(!match.str(4).find("y")) {
                     if(floor(num) == num) {
                         tmpDate += gregorian::years(num);
                     }
@@ -112,7 +112,7 @@
                 return result;
             }
 
-            if(!match.str(4).find("hour")) {
+            if(!match.str(4).find("h")) {
                 if(floor(num) == num) {
                     tmpTime += posix_time::hours(static_cast<int>(num));
                 }
@@ -120,12 +120,12 @@
                     tmpTime += posix_time::minutes(30);
                 }
             }
-            else if(!match.str(4).find("minute")) {
+            else if(!match.str(4).find("min")) {
                 if(floor(num) == num)
                     tmpTime += posix_time::minutes(static_cast<int>(num));
                 else
                     tmpTime += posix_time::seconds(30);
-            } else if (!match.str(4).find("second")) {
+            } else if (!match.str(4).find("sec")) {
                 tmpTime += posix_time::seconds(static_cast<int>(ceil(num)));
             }
             result.startDate.implyComponent("year", tmpTime.date().year());
-- 
2.43.0


From 58bca9fade087674b6dd1de3bd11dc65367fb43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 17/50] fix: number words after next/last were captured with a
 leading space and rejected

---
 src/parsers/en/ENRelativeDateFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENRelativeDateFormatParser.hpp b/src/parsers/en/ENRelativeDateFormatParser.hpp
index f8277bb..160afcf 100644
--- a/src/parsers/en/ENRelativeDateFormatParser.hpp
+++ b/src/parsers/en/ENRelativeDateFormatParser.hpp
@@ -16,7 +16,7 @@
 
         std::regex getPattern() const override {
             static const std::regex PATTERN = std::regex(
-                    R"((\b)(this|next|last|past)\s*( (?:one|two|three|four|five|six|seven|)"
+                    R"((\b)(this|next|last|past)\s*((?:one|two|three|four|five|six|seven|)"
                     R"(eight|nine|ten|eleven|twelve)|[0-9]+|few|half(?:\s*an?)?)?\s*(seconds?|)"
                     R"(min(?:ute)?s?|hour(?:s)?|day(?:s)?|week(?:s)?|month(?:s)?|year(?:s)?)(?=\s*))"
                     R"((\b))", std::regex::icase);
-- 
2.43.0


From 16e08d314adaa8a47e8f7bf285ce9fb82c93b18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 18/50] fix: next/last N min(s) moved nothing

---
 src/parsers/en/ENRelativeDateFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENRelativeDateFormatParser.hpp b/src/parsers/en/ENRelativeDateFormatParser.hpp
index 160afcf..0e0ac40 100644
--- a/src/parsers/en/ENRelativeDateFormatParser.hpp
+++ b/src/parsers/en/ENRelativeDateFormatParser.hpp
@@ -232,7 +232,7 @@
                         tmpTime -= posix_time::minutes(30);
                     }
                 }
-            } else if (match.str(RELATIVE_WORD_GROUP).find("minute") != std::string::npos) {
+            } else if (match.str(RELATIVE_WORD_GROUP).find("min") != std::string::npos) {
                 if(std::floor(num) == num) {
                     if (!match.str(MODIFIER_WORD_GROUP).compare("next")) {
                         tmpTime += posix_time::minutes(static_cast<int>(num));
-- 
2.43.0


From 61f538142df2137468a90a63eb77061ae3f3d524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 19/50] fix: an unknown word before "weeks" was taken for zero
 and added to the number words

---
 src/parsers/en/ENWeekExperessionParser.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENWeekExperessionParser.hpp b/src/parsers/en/ENWeekExperessionParser.hpp
index 4d6e13e..ee6a23b 100644
--- a/src/parsers/en/ENWeekExperessionParser.hpp
+++ b/src/parsers/en/ENWeekExperessionParser.hpp
@@ -30,8 +30,13 @@
                 numberOfWeeks = std::stoi(match.str(3));
             }
             else if(!match.str(4).empty()) {
-                numberOfWeeks = utils::INTEGER_WORDS[match.str(4)];
-                if(numberOfWeeks < 0) {
+                if(match.str(4) == "few") {
+                    numberOfWeeks = 3;
+                }
+                else if(utils::INTEGER_WORDS.count(match.str(4)) > 0) {
+                    numberOfWeeks = utils::INTEGER_WORDS[match.str(4)];
+                }
+                else {
                     return result;
                 }
             }
-- 
2.43.0


From feb27288885e4276080dd738115e7457c3168a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 20/50] fix: holidays were only recognised before white space;
 christmas and veteran's never

---
 src/parsers/en/ENUSHolidaysParser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/en/ENUSHolidaysParser.hpp b/src/parsers/en/ENUSHolidaysParser.hpp
index 675d353..0c2bcc7 100644
--- a/src/parsers/en/ENUSHolidaysParser.hpp
+++ b/src/parsers/en/ENUSHolidaysParser.hpp
@@ -13,9 +13,9 @@
                     R"((\b))"
                         R"((Independence|President\'s|New\s*Year\'s(?:\s*eve)?|)"
                         R"(Columbus|MLK|Martin\s*Luther\s*King\s*(?:Junior|Jr|Jnr)|)"
-                        R"(Thanksgiving|Memorial|Labor|Veteran(?:s|\\'s)|Christmas\\s*(?:eve)?|)"
-                        R"(black\s*Friday)\s+)"
-                            R"((?:day)?)"
+                        R"(Thanksgiving|Memorial|Labor|Veteran(?:s|\'s)|Christmas(?:\s*eve)?|)"
+                        R"(black\s*Friday))"
+                            R"((?:\s+day)?)"
                     R"((\b))", std::regex::icase};
 
             return PATTERN;
-- 
2.43.0


From 7fe194c9e48cc9a6786af0ebc92df363e08e7ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 21/50] fix: black friday was reported two days after
 thanksgiving

---
 src/parsers/en/ENUSHolidaysParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENUSHolidaysParser.hpp b/src/parsers/en/ENUSHolidaysParser.hpp
index 0c2bcc7..16b7fcd 100644
--- a/src/parsers/en/ENUSHolidaysParser.hpp
+++ b/src/parsers/en/ENUSHolidaysParser.hpp
@@ -109,8 +109,8 @@
 
                 result.startDate.setYear(day.year());
                 result.startDate.setMonth(day.month());
-                result.startDate.set_mDay(day.day() + 1);
-                result.startDate.set_wDay(day.day_of_week() + 1);
+                result.startDate.set_mDay(day.day());
+                result.startDate.set_wDay(day.day_of_week());
             }
             else if (text.find("memorial") != std::string::npos) {
                 // Memorial day is observed on the last Monday of May
-- 
2.43.0


From eaed01476b07d8a49e895ffa71c54954424f09c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 22/50] fix: month and day were only recognised before white
 space

---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index 3ee34d6..37485f0 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -42,18 +42,18 @@
                                             R"(|thirty[ -]first)"
                                         R"())"
                                         R"((?!\s*)"
-                                        R"((?:am|pm))\s+)"
+                                        R"((?:am|pm)))"
                             R"((?:)"
-                                R"((?:to|\-)\s*)"
+                                R"(\s*(?:to|\-)\s*)"
                                     R"((([0-9]{1,2}))"
                                         R"((?:st|nd|rd|th)?|)"
                                             R"(first|second|third|fourth|fifth|sixth|seventh|eighth|ninth|tenth|)"
                                             R"(eleventh|twelfth|thirteenth|fourteenth|fifteenth|sixteenth|seventheenth|eighteenth|nineteenth|twentieth|)"
                                             R"(twenty[ -]first|twenty[ -]second|twenty[ -]third|twenty[ -]fourth|twenty[ -]fifth|twenty[ -]sixth|twenty[ -]seventh|twenty[ -]eighth|twenty[ -]ninth|)"
-                                            R"(thirtieth|thirty[ -]first)\s*)"
+                                            R"(thirtieth|thirty[ -]first))"
                                         R"()?)"
                                         R"((?:)"
-                                            R"((?:-|\/|\s*,?\s*)(?:([0-9]{4})\s*(BE|AD|BC)?|([0-9]{1,4})\s*(AD|BC))\s+)"
+                                            R"((?:-|\/|\s*,?\s*)(?:([0-9]{4})(?:\s*(BE|AD|BC))?|([0-9]{1,4})\s*(AD|BC)))"
                                         R"()?)"
                                     R"((\b)(?!\:\d))" , std::regex::icase};
             return PATTERN;
-- 
2.43.0


From a82a07b66bbc384da44e84f11270691ccb130e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 23/50] fix: "seventeenth" was misspelt in the end of a date
 range

---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index 37485f0..406e38c 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -48,7 +48,7 @@
                                     R"((([0-9]{1,2}))"
                                         R"((?:st|nd|rd|th)?|)"
                                             R"(first|second|third|fourth|fifth|sixth|seventh|eighth|ninth|tenth|)"
-                                            R"(eleventh|twelfth|thirteenth|fourteenth|fifteenth|sixteenth|seventheenth|eighteenth|nineteenth|twentieth|)"
+                                            R"(eleventh|twelfth|thirteenth|fourteenth|fifteenth|sixteenth|seventeenth|eighteenth|nineteenth|twentieth|)"
                                             R"(twenty[ -]first|twenty[ -]second|twenty[ -]third|twenty[ -]fourth|twenty[ -]fifth|twenty[ -]sixth|twenty[ -]seventh|twenty[ -]eighth|twenty[ -]ninth|)"
                                             R"(thirtieth|thirty[ -]first))"
                                         R"()?)"
-- 
2.43.0


From bc73e88eca77562b0971daac6950b707f362c163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 24/50] fix: a date range ending in an ordinal word ended on
 day 0

---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index 406e38c..dfbdc3d 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -144,7 +144,7 @@
             if(!match.str(DATE_TO_GROUP).empty()) {
                 int endDate;
                 match.str(DATE_TO_NUM_GROUP).empty() ?
-                        endDate = utils::argToOrdinalValue(match.str(DATE_TO_NUM_GROUP)) :
+                        endDate = utils::argToOrdinalValue(match.str(DATE_TO_GROUP)) :
                         endDate = std::stoi(match.str(DATE_TO_NUM_GROUP));
 
                 parse::ParsedComponents tmp{result.startDate};
-- 
2.43.0


From aaafb02cf8817d533dba72ea437d02d2af24e70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 25/50] fix: "Jun" and eras after a space were not recognised
 after a month name

---
 src/parsers/en/ENMonthNameParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index 7d896e8..27bfcf9 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -21,9 +21,9 @@
 
         std::regex getPattern() const override {
             std::regex PATTERN = std::regex(R"((^|\D\s+|[^\w\s])(Jan\.?|January|Feb\.?|February|Mar\.?|March|)"
-                                    R"(Apr\.?|April|May\.?|Jun\\.?|June|Jul\.?|July|Aug\.?|August|Sep\.?|)"
+                                    R"(Apr\.?|April|May\.?|Jun\.?|June|Jul\.?|July|Aug\.?|August|Sep\.?|)"
                                     R"(Sept\.?|September|Oct\.?|October|Nov\.?|November|Dec\.?|December)\s*)"
-                                    R"((?:[,-]?\s*([0-9]{4})(\s*BE|AD|BC)?)?(?=[^\s\w]|\s+[^0-9]|\s+$|$))",
+                                    R"((?:[,-]?\s*([0-9]{4})(\s*(?:BE|AD|BC))?)?(?=[^\s\w]|\s+[^0-9]|\s+$|$))",
                                     std::regex::icase);
 
             return PATTERN;
-- 
2.43.0


From 2ef1ef9bf067b782d491d31bf0165c7a93a1e5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 26/50] fix: "may." was not a known month

---
 src/utils/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index 16f2002..6cfcb45 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -105,7 +105,7 @@ namespace utils {
             {"february",   2}, {"feb", 2},  {"feb.",  2},
             {"march",      3}, {"mar", 3},  {"mar.",  3},
             {"april",      4}, {"apr", 4},  {"apr.",  4},
-            {"may",        5},
+            {"may",        5}, {"may.", 5},
             {"june",       6}, {"jun", 6},  {"jun.",  6},
             {"july",       7}, {"jul", 7},  {"jul.",  7},
             {"august",     8}, {"aug", 8},  {"aug.",  8},
-- 
2.43.0


From 87e1bfd9adf95f94f905024272b0544a5d59b431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 27/50] fix: the index of a month name did not point at the
 month name

---
 src/parsers/en/ENMonthNameParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index 27bfcf9..0514252 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -32,7 +32,7 @@
         parse::ParsedResult extract(std::string&, const std::smatch& match, const posix_time::ptime& ref, long idx)
         override {
             std::string text = match.str(0).substr(match.length(1));
-            parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
+            parse::ParsedResult result = parse::ParsedResult(ref, idx + match.length(1), text);
 
             short unsigned month = utils::MONTH_CONSTANTS[match.str(MONTH__NAME_GROUP)];
             short unsigned day = 1;
-- 
2.43.0


From d5f834660f5f4fa1909ee0f6ee8f0ef8732adcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 28/50] fix: uninitialised meridiem and reference to a
 destroyed string in time ranges

---
 src/parsers/en/ENTimeExpressionParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index eaad3f3..a851298 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -42,7 +42,7 @@
             }
 
             int hour{0}, minute{0};// tz{-1}, meridian{-1};
-            char ampm_s;
+            char ampm_s{0};
 
             //------------Seconds------------------
             if(!match.str(SECOND_GROUP).empty()) {
@@ -160,7 +160,7 @@
                     if(to_hour > 12)
                         return result;
 
-                    char &ampm = match.str(TO_MERIDIEM_GROUP)[0];
+                    char ampm = match.str(TO_MERIDIEM_GROUP)[0];
                     if(ampm == 'a')
                         if(to_hour == 12)
                             to_hour = 0;
-- 
2.43.0


From 302dff6fb5a1f7bd724cf8c56fdefe784b9d128f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 29/50] fix: an implied p.m. was also added to hours already
 past noon

---
 src/parsers/en/ENTimeExpressionParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index a851298..647f0e8 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -169,7 +169,7 @@
                         if(to_hour != 12)
                             to_hour += 12;
                         if(match.str(AM_PM_HOUR_GROUP).empty()) {
-                            if(hour != 12) {
+                            if(hour > 0 and hour < 12) {
                                 hour += 12;
                                 result.startDate.setHour(hour);
                             }
@@ -182,7 +182,7 @@
                         if(to_hour == 12)
                             to_hour = 0;
                     if(ampm_s == 'p')
-                        if(to_hour != 12)
+                        if(to_hour < 12)
                             to_hour += 12;
                 }
 
-- 
2.43.0


From 595e3d72ec92fcc2437e8730063540bb9a5e8109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 30/50] fix: 0100 was not recognised as a time

---
 src/parsers/en/ENTimeExpressionParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index 647f0e8..862ddbb 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -70,7 +70,7 @@
             if(!match.str(MINUTE_GROUP).empty()) {
                 minute = std::stoi(match.str(MINUTE_GROUP));
             }
-            else if(hour > 100) {
+            else if(hour >= 100) {
                 minute = hour % 100;
                 hour = hour / 100;
             }
@@ -145,7 +145,7 @@
                 if(!match.str(TO_MINUTE_GROUP).empty()) {
                     to_minute = std::stoi(match.str(TO_MINUTE_GROUP));
                 }
-                else if(to_hour > 100) {
+                else if(to_hour >= 100) {
                     to_minute = to_hour % 100;
                     to_hour = to_hour / 100;
                 }
-- 
2.43.0


From a1aa54ae971ff0b2d911d5e9023f30c50d548ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 31/50] fix: the text of a time did not end where its match
 ends

---
 src/parsers/en/ENTimeExpressionParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index 862ddbb..780674c 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -34,7 +34,7 @@
 
         parse::ParsedResult extract(std::string& tx, const std::smatch& match, const posix_time::ptime& ref, long idx)
         override {
-            std::string text = match.str(0).substr(match.length(1));
+            std::string text = match.str(FULL_MATCH);
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
             if(match.position(0) > 0 and std::regex_match(tx.substr(match.position(0) - 1), std::regex("\\w"))) {
-- 
2.43.0


From 50ae9aea3166bc362afa7ba76455f0fd08ef1628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 32/50] fix: timezone abbreviations were only recognised at the
 very end of the text

---
 src/refiners/ExtractTimeZoneAbbreviation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/refiners/ExtractTimeZoneAbbreviation.hpp b/src/refiners/ExtractTimeZoneAbbreviation.hpp
index 065690c..2eac610 100644
--- a/src/refiners/ExtractTimeZoneAbbreviation.hpp
+++ b/src/refiners/ExtractTimeZoneAbbreviation.hpp
@@ -24,7 +24,7 @@ public:
                     std::cerr << e.what() << std::endl;
                     continue;
                 }
-                if(std::regex_match(tmp, match, std::regex(TIMEZONE_NAME_PATTERN, std::regex::icase))) {
+                if(std::regex_search(tmp, match, std::regex(TIMEZONE_NAME_PATTERN, std::regex::icase))) {
                     std::string tzAbbrev = utils::toUpperCase(match[1].str());
 
                     if(utils::DEFAULT_TIMEZONE_ABBR_MAP.find(tzAbbrev) != utils::DEFAULT_TIMEZONE_ABBR_MAP.end()) {
-- 
2.43.0


From ec3b5f6900dedc1ba1b8effc3c4891fbfaddde62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 33/50] fix: a timezone abbreviation replaced the text of its
 time

---
 src/refiners/ExtractTimeZoneAbbreviation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/refiners/ExtractTimeZoneAbbreviation.hpp b/src/refiners/ExtractTimeZoneAbbreviation.hpp
index 2eac610..97bae74 100644
--- a/src/refiners/ExtractTimeZoneAbbreviation.hpp
+++ b/src/refiners/ExtractTimeZoneAbbreviation.hpp
@@ -38,7 +38,7 @@ public:
                             res.startDate.setTimeZoneOffset(offset);
                         }
 
-                        res.setText(match[1].str());
+                        res.setText(text.substr(res.getIndex(), res.textLength() + match.length(0)));
                         res.setTag(utils::ExtractTimeZoneAbbreviation);
                     }
                 }
-- 
2.43.0


From 204495c1ffcac80e8de5b73e692b6a96f7ebb4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 34/50] fix: the timezone was not applied to the end of a time
 range

---
 src/refiners/ExtractTimeZoneAbbreviation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/refiners/ExtractTimeZoneAbbreviation.hpp b/src/refiners/ExtractTimeZoneAbbreviation.hpp
index 97bae74..edbd983 100644
--- a/src/refiners/ExtractTimeZoneAbbreviation.hpp
+++ b/src/refiners/ExtractTimeZoneAbbreviation.hpp
@@ -35,7 +35,7 @@ public:
                         }
 
                         if(res.end() and !res.endDate.isCertain("tzoffset")) {
-                            res.startDate.setTimeZoneOffset(offset);
+                            res.endDate.setTimeZoneOffset(offset);
                         }
 
                         res.setText(text.substr(res.getIndex(), res.textLength() + match.length(0)));
-- 
2.43.0


From b4026bcea15b21f5a4677f5c77075dea580140c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 35/50] fix: five-letter timezone abbreviations and ChST could
 never match

---
 src/refiners/ExtractTimeZoneAbbreviation.hpp | 2 +-
 src/utils/utils.hpp                          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/refiners/ExtractTimeZoneAbbreviation.hpp b/src/refiners/ExtractTimeZoneAbbreviation.hpp
index edbd983..a6dde6b 100644
--- a/src/refiners/ExtractTimeZoneAbbreviation.hpp
+++ b/src/refiners/ExtractTimeZoneAbbreviation.hpp
@@ -3,7 +3,7 @@
 
 #include "refiner.hpp"
 
-#define TIMEZONE_NAME_PATTERN "^\\s*\\(?([A-Z]{2,4})\\)?(?=\\W|$)"
+#define TIMEZONE_NAME_PATTERN "^\\s*\\(?([A-Z]{2,5})\\)?(?=\\W|$)"
 
 class ExtractTimeZoneAbbreviation : public refiners::Refiner {
 public:
diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index 6cfcb45..aa4138e 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -134,7 +134,7 @@ namespace utils {
             {"BRT",  -180}, {"BST",    60}, {"BTT",   360}, {"CAST", 480}, {"CAT",   120},
             {"CCT",   390}, {"CDT",  -300}, {"CEST",  120}, {"CET",   60}, {"CHADT", 825},
             {"CHAST", 765}, {"CKT",  -600}, {"CLST", -180}, {"CLT", -240}, {"COT",  -300},
-            {"CST",  -360}, {"CVT",   -60}, {"CXT",   420}, {"ChST", 600}, {"DAVT",  420},
+            {"CST",  -360}, {"CVT",   -60}, {"CXT",   420}, {"CHST", 600}, {"DAVT",  420},
             {"EASST",-300}, {"EAST", -360}, {"EAT",   180}, {"ECT", -300}, {"EDT",  -240},
             {"EEST",  180}, {"EET",   120}, {"EGST",    0}, {"EGT",  -60}, {"EST",  -300},
             {"ET",   -300}, {"FJST",  780}, {"FJT",   720}, {"FKST",-180}, {"FKT",  -240},
-- 
2.43.0


From 2febd5594e9cd12b7bb8416b29d0166ff66438c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 36/50] fix: timezones west of UTC with a half hour were an
 hour off

---
 src/utils/utils.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index aa4138e..e73eda7 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -141,17 +141,17 @@ namespace utils {
             {"FNT",  -120}, {"GALT", -360}, {"GAMT", -540}, {"GET",  240}, {"GFT",  -180},
             {"GILT",  720}, {"GMT",     0}, {"GST",   240}, {"GYT", -240}, {"HAA",  -180},
             {"HAC",  -300}, {"HADT", -540}, {"HAE",  -240}, {"HAP", -420}, {"HAR",  -360},
-            {"HAST", -600}, {"HAT",   -90}, {"HAY",  -480}, {"HKT",  480}, {"HLV",  -210},
+            {"HAST", -600}, {"HAT",  -150}, {"HAY",  -480}, {"HKT",  480}, {"HLV",  -270},
             {"HNA",  -240}, {"HNC",  -360}, {"HNE",  -300}, {"HNP", -480}, {"HNR",  -420},
-            {"HNT",  -150}, {"HNY",  -540}, {"HOVT",  420}, {"ICT",  420}, {"IDT",   180},
+            {"HNT",  -210}, {"HNY",  -540}, {"HOVT",  420}, {"ICT",  420}, {"IDT",   180},
             {"IOT",   360}, {"IRDT",  270}, {"IRKST", 540}, {"IRKT", 540}, {"IRST",  210},
             {"IST",   330}, {"JST",   540}, {"KGT",   360}, {"KRAST",480}, {"KRAT",  480},
             {"KST",   540}, {"KUYT",  240}, {"LHDT",  660}, {"LHST", 630}, {"LINT",  840},
-            {"MAGST", 720}, {"MAGT",  720}, {"MART", -510}, {"MAWT", 300}, {"MDT",  -360},
+            {"MAGST", 720}, {"MAGT",  720}, {"MART", -570}, {"MAWT", 300}, {"MDT",  -360},
             {"MESZ",  120}, {"MEZ",    60}, {"MHT",   720}, {"MMT",  390}, {"MSD",   240},
             {"MSK",   240}, {"MST",  -420}, {"MUT",   240}, {"MVT",  300}, {"MYT",   480},
-            {"NCT",   660}, {"NDT",   -90}, {"NFT",   690}, {"NOVST",420}, {"NOVT",  360},
-            {"NPT",   345}, {"NST",  -150}, {"NUT",  -660}, {"NZDT", 780}, {"NZST",  720},
+            {"NCT",   660}, {"NDT",  -150}, {"NFT",   690}, {"NOVST",420}, {"NOVT",  360},
+            {"NPT",   345}, {"NST",  -210}, {"NUT",  -660}, {"NZDT", 780}, {"NZST",  720},
             {"OMSST", 420}, {"OMST",  420}, {"PDT",  -420}, {"PET", -300}, {"PETST", 720},
             {"PETT",  720}, {"PGT",   600}, {"PHOT",  780}, {"PHT",  480}, {"PKT",   300},
             {"PMDT", -120}, {"PMST", -180}, {"PONT",  660}, {"PST", -480}, {"PT",   -480},
@@ -159,7 +159,7 @@ namespace utils {
             {"SAST",  120}, {"SBT",   660}, {"SCT",   240}, {"SGT",  480}, {"SRT",  -180},
             {"SST",  -660}, {"TAHT", -600}, {"TFT",   300}, {"TJT",  300}, {"TKT",   780},
             {"TLT",   540}, {"TMT",   300}, {"TVT",   720}, {"ULAT", 480}, {"UTC",     0},
-            {"UYST", -120}, {"UYT",  -180}, {"UZT",   300}, {"VET", -210}, {"VLAST", 660},
+            {"UYST", -120}, {"UYT",  -180}, {"UZT",   300}, {"VET", -270}, {"VLAST", 660},
             {"VLAT",  660}, {"VUT",   660}, {"WAST",  120}, {"WAT",   60}, {"WEST",   60},
             {"WESZ",   60}, {"WET",     0}, {"WEZ",     0}, {"WFT",  720}, {"WGST", -120},
             {"WGT",  -180}, {"WIB",   420}, {"WIT",   540}, {"WITA", 480}, {"WST",   780},
-- 
2.43.0


From 66d259cd38a868f46fcd66330edd3afef23e1016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 37/50] fix: a date and a time were merged whatever stands
 between them

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index 1ebce82..b7d51aa 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -4,7 +4,7 @@
 
 class ENMergeDateAndTime : public refiners::Refiner {
 private:
-    std::regex pattern{"(T|at|on|of|,|-)?", std::regex::icase};
+    std::regex pattern{"^\\s*(T|at|on|of|,|-)?\\s*$", std::regex::icase};
 
 public:
     ENMergeDateAndTime( ) = default;
@@ -19,7 +19,10 @@ public:
     }
 
     bool isAbleToMerge(std::string text, parse::ParsedResult& prev, parse::ParsedResult& curr) {
-        std::string textBetween = text.substr(prev.getIndex() + prev.textLength(), curr.getIndex());
+        unsigned begin = prev.getIndex() + prev.textLength();
+        if(begin > curr.getIndex())
+            return false;
+        std::string textBetween = text.substr(begin, curr.getIndex() - begin);
         return std::regex_search(textBetween, pattern);
     }
 
-- 
2.43.0


From 1fb95565a1b0b6473174bafc81dfda9ae51189d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 38/50] fix: a merged time was listed again when it was the
 last result

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index b7d51aa..2ac6c6c 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -121,22 +121,12 @@ public:
 
             if(isDateOnly(prev) and isTimeOnly(curr) and isAbleToMerge(t, prev, curr)) {
                 prev = mergeResult(t, prev, curr);
-                try {
-                    curr = r.at(i+1);
-                }
-                catch (std::out_of_range& e) {
-                    std::cerr << e.what() << " at ENMergeDateAndTimeRefiner" << std::endl;
-                }
+                curr = i + 1 < r.size() ? r[i+1] : tmp;
                 i++;
             }
             else if(isDateOnly(curr) and isTimeOnly(prev) and isAbleToMerge(t, prev, curr)) {
                 prev = mergeResult(t, curr, prev);
-                try {
-                    curr = r.at(i+1);
-                }
-                catch (std::out_of_range& e) {
-                    std::cerr << e.what() << " at ENMergeDateAndTimeRefiner" << std::endl;
-                }
+                curr = i + 1 < r.size() ? r[i+1] : tmp;
                 i++;
             }
             merged_result.push_back(prev);
-- 
2.43.0


From 26ac6107e4bf0489d3819f4d03aa62fb61b2762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 39/50] fix: merging a date and a time lost the timezone of the
 time

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index 2ac6c6c..d25ae09 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -52,6 +52,9 @@ public:
             dateTimeComp.implyComponent("min", timeComp.getMinute());
             dateTimeComp.implyComponent("sec", timeComp.getSeconds());
         }
+        if(timeComp.isCertain("tzoffset")) {
+            dateTimeComp.setTimeZoneOffset(timeComp.getTimeZoneOffset());
+        }
         return dateTimeComp;
     }
 
-- 
2.43.0


From e69994f492ba5236dde35dd5bd1b34e4527fc412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 40/50] fix: a time range past midnight on the last day of a
 month ended on a day that does not exist

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index d25ae09..b783861 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -80,10 +80,17 @@ public:
 
             if(!dateResult.end() and endDateTime.date() < startDateTime.date()) {
                 // Ex. 9pm - 1am
-                if(endDateTime.isCertain("mday"))
-                    endDateTime.set_mDay(endDateTime.get_mDay() + 1);
-                else
-                    endDateTime.implyComponent("mday", endDateTime.get_mDay() + 1);
+                gregorian::date next{endDateTime.date().date() + gregorian::days(1)};
+                if(endDateTime.isCertain("mday")) {
+                    endDateTime.set_mDay(next.day());
+                    endDateTime.setMonth(next.month());
+                    endDateTime.setYear(next.year());
+                }
+                else {
+                    endDateTime.implyComponent("mday", next.day());
+                    endDateTime.implyComponent("month", next.month());
+                    endDateTime.implyComponent("year", next.year());
+                }
             }
             dateResult.endDate = endDateTime;
             dateResult.makeEndDateValid();
-- 
2.43.0


From d3964b658c7f5ac08aed60eeb3317b521c71ba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 41/50] fix: merging date ranges listed the wrong last result

---
 src/refiners/en/ENMergeDateRangeRefiner.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/refiners/en/ENMergeDateRangeRefiner.hpp b/src/refiners/en/ENMergeDateRangeRefiner.hpp
index b1803f7..b7c6df5 100644
--- a/src/refiners/en/ENMergeDateRangeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateRangeRefiner.hpp
@@ -29,13 +29,13 @@ public:
 
             if(!prev.end() and !curr.end() and isAbleToMerge(t, prev, curr)) {
                 prev = mergeResult(t, prev, curr);
-                curr = tmp;
+                curr = i + 1 < r.size() ? r[i+1] : tmp;
                 i++;
             }
             merged_result.push_back(prev);
         }
-        if(!prev.isEmpty()) {
-            merged_result.push_back(prev);  // if prev != null add to list of results
+        if(!curr.isEmpty()) {
+            merged_result.push_back(curr);  // if curr != null add to list of results
         }
 
         return merged_result;
-- 
2.43.0


From 72719113665dfb9229ae52872e3acb53ff8f91e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 42/50] fix: a date range with its ends swapped collapsed to a
 single date

---
 src/refiners/en/ENMergeDateRangeRefiner.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/refiners/en/ENMergeDateRangeRefiner.hpp b/src/refiners/en/ENMergeDateRangeRefiner.hpp
index b7c6df5..3c15f44 100644
--- a/src/refiners/en/ENMergeDateRangeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateRangeRefiner.hpp
@@ -53,8 +53,8 @@ parse::ParsedResult ENMergeDateRange::mergeResult(std::string text,
      */
     if(fromResult.startDate.date() > toResult.startDate.date()) {
         parse::ParsedResult tmp = fromResult;
-        toResult = fromResult;
-        fromResult = tmp;
+        fromResult = toResult;
+        toResult = tmp;
     }
     fromResult.endDate = toResult.startDate;
     fromResult.makeEndDateValid();
-- 
2.43.0


From d82721af323ebc7ba7d3dd883dffb8c58936a5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 43/50] fix: the text of a merged date range ran one character
 too far

---
 src/refiners/en/ENMergeDateRangeRefiner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/refiners/en/ENMergeDateRangeRefiner.hpp b/src/refiners/en/ENMergeDateRangeRefiner.hpp
index 3c15f44..70c5b56 100644
--- a/src/refiners/en/ENMergeDateRangeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateRangeRefiner.hpp
@@ -64,7 +64,7 @@ parse::ParsedResult ENMergeDateRange::mergeResult(std::string text,
                                    toResult.getIndex() + toResult.textLength());
 
     fromResult.setIndex(static_cast<int>(startIndex));
-    fromResult.setText(text.substr(startIndex, endIndex - startIndex + 1));
+    fromResult.setText(text.substr(startIndex, endIndex - startIndex));
 
     for(const auto& mod: utils::ModList) {
         if(toResult.getTag(mod))
-- 
2.43.0


From 7693a385bad8353bc481ab6d584f680cdbee186f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 44/50] fix: two dates were merged into a range whatever stands
 between them

---
 src/refiners/en/ENMergeDateRangeRefiner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/refiners/en/ENMergeDateRangeRefiner.hpp b/src/refiners/en/ENMergeDateRangeRefiner.hpp
index 70c5b56..604a63d 100644
--- a/src/refiners/en/ENMergeDateRangeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateRangeRefiner.hpp
@@ -4,7 +4,7 @@
 class ENMergeDateRange : public refiners::Refiner {
 private:
     // std::regex to{R"(^\s*(and|to|\-)\s*$)"};
-    std::regex to{R"(\s*(and|to|through|\-)\s*)"};
+    std::regex to{R"(^\s*(and|to|through|\-)\s*$)"};
 
 public:
     ENMergeDateRange() = default;
-- 
2.43.0


From 81c64a0ba8be63e35d9b36ba16ec43401287e9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 45/50] fix: casual dates swallowed the white space after them,
 hiding a following time

---
 src/parsers/en/ENCasualDateParser.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parsers/en/ENCasualDateParser.hpp b/src/parsers/en/ENCasualDateParser.hpp
index c51a22b..e91d7bf 100644
--- a/src/parsers/en/ENCasualDateParser.hpp
+++ b/src/parsers/en/ENCasualDateParser.hpp
@@ -13,8 +13,7 @@ namespace parser {
         std::regex getPattern() const override {
             static const std::regex PATTERN =
                     std::regex(R"((\b))"
-                               R"((now|today|tonight|last\s*night|(?:tomorrow|tmr|yesterday)\s*)"
-                               R"(|tomorrow|tmr|yesterday))"
+                               R"((now|today|tonight|last\s*night|tomorrow|tmr|yesterday))"
                                R"((\b))", std::regex::icase);
             return PATTERN;
         }
-- 
2.43.0


From 4c5bf6eec8601e662d02d694f2d70269b6ad8303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 46/50] fix: a written year that amounts to -1 is not a missing
 year

---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 2 +-
 src/parsers/en/ENMonthNameParser.hpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index dfbdc3d..20177ef 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -111,7 +111,7 @@
                 }
             }
 
-            if(year != -1) {
+            if(!match.str(YEAR_GROUP).empty() or !match.str(YEAR_GROUP2).empty()) {
                 result.startDate.set_mDay(day);
                 result.startDate.setMonth(month);
                 result.startDate.setYear(year);
diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index 0514252..8a3781b 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -61,7 +61,7 @@
                     year += 2000;
                 }
             }
-            if(year != -1) {
+            if(!match.str(YEAR__GROUP).empty()) {
                 result.startDate.implyComponent("mday", day);
                 result.startDate.setMonth(month);
                 result.startDate.setYear(year);
-- 
2.43.0


From d1b6b8473f02106cc49ab3d4da093a84527d0df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:03 +0000
Subject: [PATCH 47/50] fix: mark every result of the deadline parser, also
 those in days and longer units

---
 src/parsers/en/ENDeadlineFormatParser.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index c370051..db84766 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -31,6 +31,7 @@
             gregorian::date tmpDate{ref.date()};
 
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
+            result.setTag(utils::ENDeadlineFormatParser);
 
             std::string tmp = match.str(3);
             float num;
@@ -135,8 +136,6 @@
             result.startDate.implyComponent("min", tmpTime.time_of_day().minutes());
             result.startDate.implyComponent("sec", tmpTime.time_of_day().seconds());
 
-            result.setTag(utils::ENDeadlineFormatParser);
-
             return result;
         }
 
-- 
2.43.0


From 01d512d4e4ae7b78fe07e1fec5e1974e17ae0b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:14 +0000
Subject: [PATCH 48/50] fix: months and days that wrap around in the calendar's
 16 bits are not possible dates

---
 src/result.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/result.cpp b/src/result.cpp
index b97130b..6db0c23 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -296,7 +296,7 @@ bool ParsedComponents::isPossibleDate() {
     try {
         // rejects years, months & days that do not exist
         gregorian::date tmp(getYear(), getMonth(), get_mDay());
-        if(tmp.year() != getYear()) return false;
+        if(tmp.year() != getYear() or tmp.month() != getMonth() or tmp.day() != get_mDay()) return false;
     }
     catch (std::out_of_range&) {
         return false;
-- 
2.43.0


From 5d39cdbd135d6a48fe391ee710b7576c1da387bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:22 +0000
Subject: [PATCH 49/50] fix: a counted unit adds to half of the next larger one
 instead of replacing it

---
 src/utils/utils.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 27d8c94..06360bc 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -83,19 +83,19 @@ std::map<std::string, float> utils::collectDateTimeFragment(std::smatch match, s
     }
 
     if(std::regex_search(element, std::regex("hour", std::regex::icase)))
-        fragments["hour"] = num;
+        fragments["hour"] += num;
     else if(std::regex_search(element, std::regex("min", std::regex::icase)))
-        fragments["minute"] = num;
+        fragments["minute"] += num;
     else if(std::regex_search(element, std::regex("sec", std::regex::icase)))
-        fragments["second"] = num;
+        fragments["second"] += num;
     else if(std::regex_search(element, std::regex("week", std::regex::icase)))
-        fragments["week"] = num;
+        fragments["week"] += num;
     else if(std::regex_search(element, std::regex("day", std::regex::icase)))
-        fragments["day"] = num;
+        fragments["day"] += num;
     else if(std::regex_search(element, std::regex("month", std::regex::icase)))
-        fragments["month"] = num;
+        fragments["month"] += num;
     else if(std::regex_search(element, std::regex("year", std::regex::icase)))
-        fragments["year"] = num;
+        fragments["year"] += num;
 
     return fragments;
 }
-- 
2.43.0


From 685099c9911052b58fd3549b54e42067a5b7db26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:21 +0000
Subject: [PATCH 50/50] fix: holidays written with other spacing inside the
 name are recognised

---
 src/parsers/en/ENUSHolidaysParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENUSHolidaysParser.hpp b/src/parsers/en/ENUSHolidaysParser.hpp
index 16b7fcd..e3dee0a 100644
--- a/src/parsers/en/ENUSHolidaysParser.hpp
+++ b/src/parsers/en/ENUSHolidaysParser.hpp
@@ -33,7 +33,7 @@
                 result.startDate.setMonth(7);
                 result.startDate.set_mDay(4);
             }
-            else if(text.find("new year") != std::string::npos) {
+            else if(text.find("year's") != std::string::npos) {
                 result.startDate.setYear(ref.date().year());
                 result.startDate.setMonth(1);
                 result.startDate.set_mDay(1);
@@ -60,7 +60,7 @@
                 }
             }
             else if(text.find("mlk") != std::string::npos or
-                       text.find(utils::toLowerCase("Martin Luther King")) != std::string::npos) {
+                       text.find(utils::toLowerCase("Martin")) != std::string::npos) {
                 //MLK day is the third Monday in Jan
                 utils::ndow thirdMondayOfJan(utils::ndow::third, gregorian::Monday, gregorian::Jan);
                 day = thirdMondayOfJan.get_date(ref.date().year());
-- 
2.43.0


From ba453c1e3ddb8fe6ede8f013fe9652a5e788f1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:55 +0000
Subject: [PATCH] fix: a request segment "**" must not select the wildcard
 child first

---
 src/path_matcher_node.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/path_matcher_node.cc b/src/path_matcher_node.cc
index 838a758..617b6ab 100644
--- a/src/path_matcher_node.cc
+++ b/src/path_matcher_node.cc
@@ -158,7 +158,10 @@ void PathMatcherNode::LookupPath(RequestPathParts::const_iterator current,
       }
       return;
     }
-    if (LookupPathFromChild(*current, current, end, http_method, result)) {
+    // A request segment that happens to read "**" is an ordinary segment: it
+    // must not select the wildcard child ahead of the single-segment ones.
+    if (*current != HttpTemplate::kWildCardPathKey &&
+        LookupPathFromChild(*current, current, end, http_method, result)) {
       return;
     }
     if (!wildcard_) {
-- 
2.43.0


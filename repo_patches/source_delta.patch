From 6d3e768318252c8b8a4eaa0cf619730036a9cc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:54 +0000
Subject: [PATCH 01/25] fix: rbusBuffer_Read/rbusValue_Decode: accept every
 written byte, refuse truncated or malformed fields

rbusBuffer_Read compared against the allocation with '<', so a value ending exactly at the
allocation boundary could not be read, while bytes never written could be. rbusValue_Decode ran
strlen on unterminated input, asserted on malformed input and left a dangling value behind.
---
 src/rbus/rbus_buffer.c |  2 +-
 src/rbus/rbus_value.c  | 18 ++++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/rbus/rbus_buffer.c b/src/rbus/rbus_buffer.c
index 5241cd8..f3d8949 100644
--- a/src/rbus/rbus_buffer.c
+++ b/src/rbus/rbus_buffer.c
@@ -257,7 +257,7 @@ int rbusBuffer_Read(rbusBuffer_t const buff, void* data, int len)
 {
     if((!buff) || (!data))
         return -1;
-    if(!(buff->posRead + len < buff->lenAlloc))
+    if(len < 0 || len > buff->posWrite - buff->posRead)
     {
         RBUSLOG_WARN("rbusBuffer_Read failed");
         return -1;
diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index d95405e..b0e0301 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -710,12 +710,14 @@ int rbusValue_Decode(rbusValue_t* value, rbusBuffer_t const buff)
     if(rbusBuffer_ReadUInt16(buff, &type) != 0)
     {
         rbusValue_Release(*value);
+        *value = NULL;
         return -1;
     }
 
     if(rbusBuffer_ReadUInt16(buff, &length) != 0)
     {
         rbusValue_Release(*value);
+        *value = NULL;
         return -1;
     }
 
@@ -724,21 +726,26 @@ int rbusValue_Decode(rbusValue_t* value, rbusBuffer_t const buff)
     {
     /*Calling rbusValue_SetString/rbusValue_SetBytes so the value's internal buffer is created.*/
     case RBUS_STRING:
-        if(!(buff->posRead + length <= buff->lenAlloc))
+        /*length captures the null term, so the string must end exactly at the end of the field*/
+        if(length > buff->posWrite - buff->posRead ||
+           strnlen((char const*)buff->data + buff->posRead, length) + 1 != (size_t)length)
         {
             RBUSLOG_WARN("rbusValue_Decode failed");
+            current->type = RBUS_NONE;
             rbusValue_Release(*value);
+            *value = NULL;
             return -1;
         }
-        assert(strlen((char const*)buff->data + buff->posRead) + 1 == (size_t)length);/*length should captures null term*/
         rbusValue_SetString(current, (char const*)buff->data + buff->posRead);
         buff->posRead += length;
         return length;
     case RBUS_BYTES:
-        if(!(buff->posRead + length <= buff->lenAlloc))
+        if(length > buff->posWrite - buff->posRead)
         {
             RBUSLOG_WARN("rbusValue_Decode failed");
+            current->type = RBUS_NONE;
             rbusValue_Release(*value);
+            *value = NULL;
             return -1;
         }
         rbusValue_SetBytes(current, buff->data + buff->posRead, length);
@@ -788,14 +795,17 @@ int rbusValue_Decode(rbusValue_t* value, rbusBuffer_t const buff)
         rc = rbusBuffer_ReadDateTime(buff, &current->d.tv);
         break;
     default:
+        RBUSLOG_WARN("rbusValue_Decode unsupported type %d", type);
+        current->type = RBUS_NONE;
         rbusValue_Release(*value);
-        assert(false);
+        *value = NULL;
         return -1;
     }
     if (rc != 0)
     {
         RBUSLOG_WARN("rbusValue_Decode failed for type %d", type);
         rbusValue_Release(*value);
+        *value = NULL;
         return -1;
     }
     /* If we reach here, we have successfully read the value */
-- 
2.43.0


From 20a6f3eed489bd8dba29feecd7d6a750e3701327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:56 +0000
Subject: [PATCH 02/25] fix: thread pool elapsed time is off when the
 nanoseconds borrow

timeGetElapsed added nanoseconds to milliseconds in the borrow branch.
---
 src/rtmessage/rtThreadPool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtmessage/rtThreadPool.c b/src/rtmessage/rtThreadPool.c
index 8a9785a..7e39550 100644
--- a/src/rtmessage/rtThreadPool.c
+++ b/src/rtmessage/rtThreadPool.c
@@ -229,7 +229,7 @@ int timeGetElapsed(struct timespec* startTime)
   else
   {
     ms = (now.tv_sec - startTime->tv_sec - 1) * 1000 +
-        (1000000000 + now.tv_nsec - startTime->tv_nsec);
+        (1000000000 + now.tv_nsec - startTime->tv_nsec) / 1000000;
   }
   return ms;
 }
-- 
2.43.0


From 55fae801bb757f3da3649e51b475ba86e86d825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:56 +0000
Subject: [PATCH 03/25] fix: session manager refuses an end-session request
 with a wrongly typed id

rbusValue_GetInt32 aborts on a type mismatch, so a caller could terminate the
session manager; use the checked getter instead.
---
 src/session_manager/session_manager.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/session_manager/session_manager.c b/src/session_manager/session_manager.c
index 936d3d9..49d2af8 100644
--- a/src/session_manager/session_manager.c
+++ b/src/session_manager/session_manager.c
@@ -113,7 +113,7 @@ static rbusError_t sessionManager_methodHandler(rbusHandle_t handle,
         int sessionid = 0;
         int result = 0;
         prop = rbusObject_GetProperties(inParams);
-        if ((prop) && (sessionid = rbusValue_GetInt32(rbusProperty_GetValue(prop))))
+        if ((prop) && (rbusValue_GetInt32Ex(rbusProperty_GetValue(prop), &sessionid) == RBUS_VALUE_ERROR_SUCCESS) && (sessionid))
         {
             if(sessionid == g_current_session_id)
             {
-- 
2.43.0


From e97627727b6f8fa6218b6397adf2d2e3a3c10f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:58 +0000
Subject: [PATCH 04/25] fix: method invocation maps a legacy success code to
 RBUS_ERROR_SUCCESS

A legacy provider's success (100) reached the caller as an unknown error.
---
 src/rbus/rbus.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index a063aad..e10a4d0 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -6100,7 +6100,7 @@ rbusError_t rbusMethod_InvokeInternal(
     legacyRetCode = (rbusLegacyReturn_t)returnCode;
 
     rbusObject_initFromMessage(outParams, response);
-    if(legacyRetCode > RBUS_LEGACY_ERR_SUCCESS)
+    if(legacyRetCode >= RBUS_LEGACY_ERR_SUCCESS)
     {
         returnCode = CCSPError_to_rbusError(legacyRetCode);
     }
-- 
2.43.0


From 974b99fd86ef80a68c926800f4bd0e6b6311e39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:36 +0000
Subject: [PATCH 05/25] fix: rbusValue_Compare sees every difference and is
 antisymmetric

Integers were compared as doubles (2^53 and 2^53+1 were equal), date-times
that differ were reported equal and their UTC offset was applied with the wrong
sign, byte arrays were read past the shorter one, a NULL string or byte array
was dereferenced, not-a-number made rbusValue_Copy abort, and swapping a NULL
operand did not flip the sign.
---
 src/rbus/rbus_value.c | 137 ++++++++++++++++++++++++++++--------------
 1 file changed, 93 insertions(+), 44 deletions(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index b0e0301..029780c 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -912,21 +912,90 @@ static double rbusValue_CoerceNumericToDouble(rbusValue_t v)
     }
 }
 
+/*the value of an integral type as 64 bits; negative tells if those bits are a negative int64_t*/
+static uint64_t rbusValue_CoerceIntegral(rbusValue_t v, bool* negative)
+{
+    int64_t i = 0;
+    switch(v->type)
+    {
+    case RBUS_BOOLEAN:
+        i = rbusValue_GetBoolean(v);
+        break;
+    case RBUS_CHAR:
+        i = rbusValue_GetChar(v);
+        break;
+    case RBUS_BYTE:
+        i = rbusValue_GetByte(v);
+        break;
+    case RBUS_INT8:
+        i = rbusValue_GetInt8(v);
+        break;
+    case RBUS_UINT8:
+        i = rbusValue_GetUInt8(v);
+        break;
+    case RBUS_INT16:
+        i = rbusValue_GetInt16(v);
+        break;
+    case RBUS_UINT16:
+        i = rbusValue_GetUInt16(v);
+        break;
+    case RBUS_INT32:
+        i = rbusValue_GetInt32(v);
+        break;
+    case RBUS_UINT32:
+        i = rbusValue_GetUInt32(v);
+        break;
+    case RBUS_UINT64:
+        *negative = false;
+        return rbusValue_GetUInt64(v);
+    default:
+        i = rbusValue_GetInt64(v);
+        break;
+    }
+    *negative = i < 0;
+    return (uint64_t)i;
+}
+
+/*seconds the local time of the time zone is ahead of UTC*/
+static int64_t rbusValue_UTCOffset(rbusDateTime_t const* dt)
+{
+    int64_t offset = (int64_t)dt->m_tz.m_tzhour * 3600 + (int64_t)dt->m_tz.m_tzmin * 60;
+    return dt->m_tz.m_isWest ? -offset : offset;
+}
+
 int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
 {
     if(v1 == v2)
         return 0;
 
-    if((!v1)||(!v2))
+    if(!v1)
         return -1;
+    if(!v2)
+        return 1;
 
     /*compare integral values being type insensitive*/
+    if(v1->type <= RBUS_UINT64 && v2->type <= RBUS_UINT64)
+    {
+        bool neg1, neg2;
+        uint64_t i1 = rbusValue_CoerceIntegral(v1, &neg1);
+        uint64_t i2 = rbusValue_CoerceIntegral(v2, &neg2);
+
+        if(neg1 != neg2)
+            return neg1 ? -1 : 1;
+        else if(i1 == i2)
+            return 0;
+        else
+            return i1 < i2 ? -1 : 1;
+    }
+
     if(v1->type <= RBUS_DOUBLE && v2->type <= RBUS_DOUBLE)
     {
         double d1 = rbusValue_CoerceNumericToDouble(v1);
         double d2 = rbusValue_CoerceNumericToDouble(v2);
 
-        if(d1 == d2)
+        if(isnan(d1) || isnan(d2)) /*not-a-number equals itself and comes after every number*/
+            return (isnan(d1) ? 1 : 0) - (isnan(d2) ? 1 : 0);
+        else if(d1 == d2)
             return 0;
         else if(d1 < d2)
             return -1;
@@ -945,73 +1014,53 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
     switch(v1->type)
     {
     case RBUS_STRING:
-    {
-        return strcmp((char const*)v1->d.bytes->data, (char const*)v2->d.bytes->data);
-    }
     case RBUS_BYTES:
     {
-        int c = memcmp(v1->d.bytes->data, v2->d.bytes->data, v1->d.bytes->posWrite);
-        if(v1->d.bytes->posWrite < v2->d.bytes->posWrite && c == 0)
-            c = -1;
-        else if(v1->d.bytes->posWrite > v2->d.bytes->posWrite && c == 0)
-            c = 1;
+        int c, len1, len2;
+        if(!v1->d.bytes || !v2->d.bytes) /*NULL was set*/
+            return (v1->d.bytes ? 1 : 0) - (v2->d.bytes ? 1 : 0);
+        if(v1->type == RBUS_STRING)
+            return strcmp((char const*)v1->d.bytes->data, (char const*)v2->d.bytes->data);
+        len1 = v1->d.bytes->posWrite;
+        len2 = v2->d.bytes->posWrite;
+        c = memcmp(v1->d.bytes->data, v2->d.bytes->data, len1 < len2 ? len1 : len2);
+        if(c == 0 && len1 != len2)
+            c = len1 < len2 ? -1 : 1;
         return c;
     }
     case RBUS_DATETIME:
     {
-        if(memcmp(rbusValue_GetTime(v1), rbusValue_GetTime(v2), sizeof(rbusDateTime_t)))
+        if(memcmp(rbusValue_GetTime(v1), rbusValue_GetTime(v2), sizeof(rbusDateTime_t)) == 0)
             return 0;
 
-        /*apply timezone and diff the times*/
-        rbusDateTime_t dt1 = *rbusValue_GetTime(v1);
-        rbusDateTime_t dt2 = *rbusValue_GetTime(v2);
-
-        dt1.m_time.tm_hour += (dt1.m_tz.m_isWest ? dt1.m_tz.m_tzhour * -1 : dt1.m_tz.m_tzhour);
-        dt1.m_time.tm_min += (dt1.m_tz.m_isWest ? dt1.m_tz.m_tzmin * -1 : dt1.m_tz.m_tzmin);
-        if(dt1.m_time.tm_min < 0)
-            dt1.m_time.tm_min += 60;
-        if(dt1.m_time.tm_min >= 60)
-            dt1.m_time.tm_min -= 60;
-
-        dt2.m_time.tm_hour += (dt2.m_tz.m_isWest ? dt2.m_tz.m_tzhour * -1 : dt2.m_tz.m_tzhour);
-        dt2.m_time.tm_min += (dt2.m_tz.m_isWest ? dt2.m_tz.m_tzmin * -1 : dt2.m_tz.m_tzmin);
-        if(dt2.m_time.tm_min < 0)
-            dt2.m_time.tm_min += 60;
-        if(dt2.m_time.tm_min >= 60)
-            dt2.m_time.tm_min -= 60;
-
+        /*diff the times in UTC, east of UTC the local time is ahead*/
+        rbusDateTime_t const* dt1 = rbusValue_GetTime(v1);
+        rbusDateTime_t const* dt2 = rbusValue_GetTime(v2);
         struct tm t1m, t2m;
-        rbusValue_UnMarshallRBUStoTM(&t1m, &dt1);
-        rbusValue_UnMarshallRBUStoTM(&t2m, &dt2);
+        rbusValue_UnMarshallRBUStoTM(&t1m, dt1);
+        rbusValue_UnMarshallRBUStoTM(&t2m, dt2);
 
-        time_t t1 = mktime(&t1m);
-        time_t t2 = mktime(&t2m);
-        double diffSecs = difftime(t1, t2);
+        int64_t t1 = (int64_t)timegm(&t1m) - rbusValue_UTCOffset(dt1);
+        int64_t t2 = (int64_t)timegm(&t2m) - rbusValue_UTCOffset(dt2);
 
-        if(diffSecs == 0)
+        if(t1 == t2)
             return 0;
-        else if(diffSecs < 0)
-            return -1;
         else
-            return 1;
+            return t1 < t2 ? -1 : 1;
     }
     case RBUS_PROPERTY:
     {
         if(rbusValue_GetProperty(v1) && rbusValue_GetProperty(v2))
             return rbusProperty_Compare(rbusValue_GetProperty(v1), rbusValue_GetProperty(v2));
-        else if(rbusValue_GetProperty(v1))
-            return 1;
         else
-            return -1;
+            return (rbusValue_GetProperty(v1) ? 1 : 0) - (rbusValue_GetProperty(v2) ? 1 : 0);
     }
     case RBUS_OBJECT:
     {
         if(rbusValue_GetObject(v1) && rbusValue_GetObject(v2))
             return rbusObject_Compare(rbusValue_GetObject(v1), rbusValue_GetObject(v2), true);
-        else if(rbusValue_GetObject(v1))
-            return 1;
         else
-            return -1;
+            return (rbusValue_GetObject(v1) ? 1 : 0) - (rbusValue_GetObject(v2) ? 1 : 0);
     }
     case RBUS_NONE:
     default:
-- 
2.43.0


From c8a6ce89369df038c599ad859aa9d90c117996b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:36 +0000
Subject: [PATCH 06/25] fix: rbusValue_ToString stays inside the caller's
 buffer and terminates it

Byte arrays wrote two characters per byte into a buffer checked for one, a
string that did not fit was left unterminated, and a NULL string crashed.
---
 src/rbus/rbus_value.c | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index 029780c..cfdd695 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -235,29 +235,16 @@ char* rbusValue_ToString(rbusValue_t v, char* buf, size_t buflen)
       p = buf;
       n = (int)buflen;
 
-        switch(v->type)
-        {
-        case RBUS_STRING:
-            if(n > v->d.bytes->posWrite)
-                n = v->d.bytes->posWrite;
-            break;
-        case RBUS_BYTES:
-            if(n > v->d.bytes->posWrite + 1)
-                n = v->d.bytes->posWrite + 1;
-            break;
-        default:
-            break;
-        }
     }
     else
     {
         switch(v->type)
         {
         case RBUS_STRING:
-            n = v->d.bytes->posWrite;
+            n = v->d.bytes ? v->d.bytes->posWrite : 1;
             break;
         case RBUS_BYTES:
-            n = (2 * v->d.bytes->posWrite) + 1;
+            n = v->d.bytes ? (2 * v->d.bytes->posWrite) + 1 : 1;
             break;
         case RBUS_BOOLEAN:
             n = snprintf(p, 0, "%s", (int)v->d.b ? "true" : "false")+1;
@@ -311,14 +298,16 @@ char* rbusValue_ToString(rbusValue_t v, char* buf, size_t buflen)
     switch(v->type)
     {
     case RBUS_STRING:
-        strncpy(p, (char const* ) v->d.bytes->data, n);
+        snprintf(p, n, "%s", v->d.bytes ? (char const* ) v->d.bytes->data : "");
         break;
     case RBUS_BYTES:
     {
         int i = 0;
-        for (i = 0; i < v->d.bytes->posWrite; i++)
+        int len = v->d.bytes ? v->d.bytes->posWrite : 0;
+        for (i = 0; i < len && (2 * i) + 2 < n; i++)
             sprintf (&p[i * 2], "%02X", v->d.bytes->data[i]);
-        p[2 * v->d.bytes->posWrite] = 0;
+        if (n > 0)
+            p[2 * i] = 0;
         break;
     }
     case RBUS_BOOLEAN:
-- 
2.43.0


From c9f4b381319a53ea384f0a1d92fe3041869b3b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:36 +0000
Subject: [PATCH 07/25] fix: rbusValue_SetFromString refuses negative text for
 unsigned types

A minus sign after white space was not noticed, so " -5" became
18446744073709551611; the date-time fields strptime does not set were
uninitialised.
---
 src/rbus/rbus_value.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index cfdd695..de89e94 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -1130,7 +1130,10 @@ bool rbusValue_SetFromString(rbusValue_t value, rbusValueType_t type, const char
     if(value == NULL)
         return false;
 
-    char sign = *pStringInput;
+    char const* pSign = pStringInput;
+    while(isspace((unsigned char)*pSign))/*strtoul skips these, too*/
+        pSign++;
+    char sign = *pSign;
     switch(type)
     {
     case RBUS_STRING:
@@ -1286,7 +1289,7 @@ bool rbusValue_SetFromString(rbusValue_t value, rbusValueType_t type, const char
         }
     case RBUS_DATETIME:
         {
-            struct tm tv;
+            struct tm tv = {0};
             rbusDateTime_t tvm = {{0},{0}};
             if(0 != strncmp(pStringInput,"0000-",5)) {
                 char *pRet = NULL;
-- 
2.43.0


From 123245c72d955a3a271e8f84949f8af45e5553d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:51 +0000
Subject: [PATCH 08/25] fix: retain the new reference before releasing the
 replaced one

Replacing a reference held by a value, property or object by itself, or by
something only reachable through the replaced one, destroyed it. Storing a
string or byte array into a value that held a property or object leaked it, and
the raw accessors dereferenced a NULL string.
---
 src/rbus/rbus_object.c   | 12 ++++++------
 src/rbus/rbus_property.c |  8 ++++----
 src/rbus/rbus_value.c    | 20 +++++++++++---------
 3 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/rbus/rbus_object.c b/src/rbus/rbus_object.c
index 68cef82..253c3ad 100644
--- a/src/rbus/rbus_object.c
+++ b/src/rbus/rbus_object.c
@@ -263,11 +263,11 @@ rbusProperty_t rbusObject_GetProperties(rbusObject_t object)
 void rbusObject_SetProperties(rbusObject_t object, rbusProperty_t properties)
 {
     VERIFY_NULL(object);
+    if(properties)
+        rbusProperty_Retain(properties);
     if(object->properties)
         rbusProperty_Release(object->properties);
     object->properties = properties;
-    if(object->properties)
-        rbusProperty_Retain(object->properties);
 }
 
 rbusProperty_t rbusObject_GetProperty(rbusObject_t object, char const* name)
@@ -413,11 +413,11 @@ rbusObject_t rbusObject_GetChildren(rbusObject_t object)
 void rbusObject_SetChildren(rbusObject_t object, rbusObject_t children)
 {
     VERIFY_NULL(object);
+    if(children)
+        rbusObject_Retain(children);
     if(object->children)
         rbusObject_Release(object->children);
     object->children = children;
-    if(object->children)
-        rbusObject_Retain(object->children);
 }
 
 rbusObject_t rbusObject_GetNext(rbusObject_t object)
@@ -430,11 +430,11 @@ rbusObject_t rbusObject_GetNext(rbusObject_t object)
 void rbusObject_SetNext(rbusObject_t object, rbusObject_t next)
 {
     VERIFY_NULL(object);
+    if(next)
+        rbusObject_Retain(next);
     if(object->next)
         rbusObject_Release(object->next);
     object->next = next;
-    if(object->next)
-        rbusObject_Retain(object->next);
 }
 
 rbusObjectType_t rbusObject_GetType(rbusObject_t object)
diff --git a/src/rbus/rbus_property.c b/src/rbus/rbus_property.c
index 368de22..08af74f 100644
--- a/src/rbus/rbus_property.c
+++ b/src/rbus/rbus_property.c
@@ -170,11 +170,11 @@ rbusValue_t rbusProperty_GetValue(rbusProperty_t property)
 void rbusProperty_SetValue(rbusProperty_t property, rbusValue_t value)
 {
     VERIFY_NULL(property);
+    if(value)
+        rbusValue_Retain(value);
     if(property->value)
         rbusValue_Release(property->value);
     property->value = value;
-    if(property->value)
-        rbusValue_Retain(property->value);
 }
 
 rbusProperty_t rbusProperty_GetNext(rbusProperty_t property)
@@ -185,11 +185,11 @@ rbusProperty_t rbusProperty_GetNext(rbusProperty_t property)
 void rbusProperty_SetNext(rbusProperty_t property, rbusProperty_t next)
 {
     VERIFY_NULL(property);
+    if(next)
+        rbusProperty_Retain(next);
     if(property->next)
         rbusProperty_Release(property->next);
     property->next = next;
-    if(property->next)
-        rbusProperty_Retain(property->next);
 }
 
 void rbusProperty_Append(rbusProperty_t property, rbusProperty_t back)
diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index de89e94..438485d 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -555,6 +555,7 @@ static void rbusValue_SetBufferData(rbusValue_t v, const void* data, int len, rb
     }
     else
     {
+        rbusValue_FreeInternal(v);
         rbusBuffer_Create(&v->d.bytes);
     }
     rbusBuffer_Write(v->d.bytes, data, len);
@@ -597,21 +598,21 @@ void rbusValue_SetBytes(rbusValue_t v, uint8_t const* p, int len)
 void rbusValue_SetProperty(rbusValue_t v, struct _rbusProperty* property)
 {
     VERIFY_NULL(v);
+    if(property)
+        rbusProperty_Retain(property);
     rbusValue_FreeInternal(v);
     v->type = RBUS_PROPERTY;
     v->d.property = property;
-    if(v->d.property)
-        rbusProperty_Retain(v->d.property);
 }
 
 void rbusValue_SetObject(rbusValue_t v, struct _rbusObject* object)
 {
     VERIFY_NULL(v);
+    if(object)
+        rbusObject_Retain(object);
     rbusValue_FreeInternal(v);
     v->type = RBUS_OBJECT;
     v->d.object = object;
-    if(v->d.object)
-        rbusObject_Retain(v->d.object);
 }
 
 uint8_t const* rbusValue_GetV(rbusValue_t v)
@@ -622,7 +623,7 @@ uint8_t const* rbusValue_GetV(rbusValue_t v)
     {
     case RBUS_STRING:
     case RBUS_BYTES:
-        return v->d.bytes->data;
+        return v->d.bytes ? v->d.bytes->data : NULL;
     default:
         return (uint8_t const*)&v->d.b;
     }
@@ -634,7 +635,7 @@ uint32_t rbusValue_GetL(rbusValue_t v)
         return 1;
     switch(v->type)
     {
-    case RBUS_STRING:       return v->d.bytes->posWrite; 
+    case RBUS_STRING:       return v->d.bytes ? v->d.bytes->posWrite : 0;
     case RBUS_BOOLEAN:      return sizeof(bool);
     case RBUS_INT32:        return sizeof(int32_t);
     case RBUS_UINT32:       return sizeof(uint32_t);
@@ -649,7 +650,7 @@ uint32_t rbusValue_GetL(rbusValue_t v)
     case RBUS_SINGLE:       return sizeof(float);
     case RBUS_DOUBLE:       return sizeof(double);
     case RBUS_DATETIME:     return sizeof(rbusDateTime_t);
-    case RBUS_BYTES:        return v->d.bytes->posWrite;
+    case RBUS_BYTES:        return v->d.bytes ? v->d.bytes->posWrite : 0;
     default:                return 0;
     }
 }
@@ -1059,9 +1060,10 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
 
 void rbusValue_SetPointer(rbusValue_t* value1, rbusValue_t value2)
 {
-    rbusValue_Release(*value1);
+    rbusValue_t old = *value1;
+    rbusValue_Retain(value2);
     *value1 = value2;
-    rbusValue_Retain(*value1);
+    rbusValue_Release(old);
 }
 
 void rbusValue_Swap(rbusValue_t* v1, rbusValue_t* v2)
-- 
2.43.0


From 48e1762949f93a8cffe436353e0c27fbac98d037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:51 +0000
Subject: [PATCH 09/25] fix: rbusObject_SetProperty with a property the object
 already has

It appended the property's successors to themselves, making the list circular.
---
 src/rbus/rbus_object.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus_object.c b/src/rbus/rbus_object.c
index 253c3ad..4187461 100644
--- a/src/rbus/rbus_object.c
+++ b/src/rbus/rbus_object.c
@@ -305,7 +305,11 @@ void rbusObject_SetProperty(rbusObject_t object, rbusProperty_t newProp)
                 oldProp = NULL;
             }
         }
-        if(oldProp)/*existing property found by name*/
+        if(oldProp == newProp)
+        {   /*the object has it already*/
+            return;
+        }
+        else if(oldProp)/*existing property found by name*/
         {   /*replace oldProp with newProp, preserving the rest of the property list*/
 
             /*append all the properties after oldProp to the newProp*/
-- 
2.43.0


From c162e48036a3937f345e6c612413b88d8f02f851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:04 +0000
Subject: [PATCH 10/25] fix: the last of several concurrent releases destroys
 the object, exactly once

The reference count was read again after the atomic decrement, so two threads
releasing at the same time could both see zero (double destroy), and a thread
could read the count of an object another one had already freed.
---
 src/rtmessage/rtAtomic.h     | 14 ++++++++++----
 src/rtmessage/rtMessage.c    |  4 +---
 src/rtmessage/rtRetainable.c |  4 +---
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/rtmessage/rtAtomic.h b/src/rtmessage/rtAtomic.h
index 2f6210f..1ef8125 100644
--- a/src/rtmessage/rtAtomic.h
+++ b/src/rtmessage/rtAtomic.h
@@ -55,17 +55,23 @@ static inline void rt_atomic_fetch_add(atomic_int* var, int value)
 #endif
 }
 
-static inline void rt_atomic_fetch_sub(atomic_int* var, int value)
+/*returns the value before the subtraction*/
+static inline int rt_atomic_fetch_sub(atomic_int* var, int value)
 {
 #if defined(RT_ATOMIC_HAS_ATOMIC_FETCH)
-    __atomic_fetch_sub(var, value, __ATOMIC_SEQ_CST);
+    return __atomic_fetch_sub(var, value, __ATOMIC_SEQ_CST);
 #elif defined(RT_ATOMIC_HAS_SYNC_FETCH)
-    __sync_fetch_and_sub(var, value);
+    return __sync_fetch_and_sub(var, value);
 #else
+    int previous = 0;
     pthread_mutex_lock(&g_atomic_mutex);
     if(NULL != var)
-        *(var) = *(var) - value;
+    {
+        previous = *(var);
+        *(var) = previous - value;
+    }
     pthread_mutex_unlock(&g_atomic_mutex);
+    return previous;
 #endif
 }
 
diff --git a/src/rtmessage/rtMessage.c b/src/rtmessage/rtMessage.c
index 99d9947..1380f63 100644
--- a/src/rtmessage/rtMessage.c
+++ b/src/rtmessage/rtMessage.c
@@ -617,9 +617,7 @@ rtMessage_Retain(rtMessage m)
 rtError
 rtMessage_Release(rtMessage m)
 {
-  if (m->count != 0)
-    rt_atomic_fetch_sub(&m->count, 1);
-  if (m->count == 0)
+  if (rt_atomic_fetch_sub(&m->count, 1) == 1)
     rtMessage_Destroy(m);
   return RT_OK;
 }
diff --git a/src/rtmessage/rtRetainable.c b/src/rtmessage/rtRetainable.c
index c7d82e2..59be7ec 100644
--- a/src/rtmessage/rtRetainable.c
+++ b/src/rtmessage/rtRetainable.c
@@ -27,9 +27,7 @@ void rtRetainable_retainInternal(rtRetainable* r)
 
 void rtRetainable_releaseInternal(rtRetainable* r, void (*destructor)(rtRetainable*))
 {
-    rt_atomic_fetch_sub(&r->refCount, 1);
-
-    if(r->refCount == 0)
+    if(rt_atomic_fetch_sub(&r->refCount, 1) == 1)
     {
         destructor(r);
     }
-- 
2.43.0


From c59cb43522986769bd4991c9ed9ec58d70cdd707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 11/25] fix: rbusValue_ToString copies as much of a string as
 the caller's buffer holds

---
 src/rbus/rbus_value.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index 438485d..1fa71cc 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -298,7 +298,10 @@ char* rbusValue_ToString(rbusValue_t v, char* buf, size_t buflen)
     switch(v->type)
     {
     case RBUS_STRING:
-        snprintf(p, n, "%s", v->d.bytes ? (char const* ) v->d.bytes->data : "");
+        if (v->d.bytes)
+            strncpy(p, (char const* ) v->d.bytes->data, n < v->d.bytes->posWrite ? n : v->d.bytes->posWrite);
+        else if (n > 0)
+            p[0] = 0;
         break;
     case RBUS_BYTES:
     {
-- 
2.43.0


From 8d5fa0f073d8f5cb5dce983126b5fcd9b50bbc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:42 +0000
Subject: [PATCH 12/25] fix: filters without a right operand survive encoding,
 undecodable filters are refused

An absent operand, such as the right one of NOT, was encoded as nothing but
expected when decoding.  An unknown kind of expression left the result
uninitialised, and a failure in the right operand leaked the left one.
---
 src/rbus/rbus.c        |  4 +++-
 src/rbus/rbus_filter.c | 44 ++++++++++++++++++++++++++++++++++--------
 2 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index e10a4d0..34c051e 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -859,7 +859,9 @@ void rbusFilter_InitFromMessage(rbusFilter_t* filter, rbusMessage msg)
     int32_t type;
     int32_t op;
 
-    rbusMessage_GetInt32(msg, &type);
+    *filter = NULL;
+    if(rbusMessage_GetInt32(msg, &type) != RT_OK)
+        return;
 
     if(type == RBUS_FILTER_EXPRESSION_RELATION)
     {
diff --git a/src/rbus/rbus_filter.c b/src/rbus/rbus_filter.c
index 1edc8bf..e2e040a 100644
--- a/src/rbus/rbus_filter.c
+++ b/src/rbus/rbus_filter.c
@@ -217,6 +217,17 @@ rbusFilter_t rbusFilter_GetLogicRight(rbusFilter_t filter)
     return filter->e.logic.right;
 }
 
+/*stands for an operand which isn't there, such as the right one of NOT*/
+#define RBUS_FILTER_NO_OPERAND UINT32_MAX
+
+static void rbusFilter_EncodeOperand(rbusFilter_t filter, rbusBuffer_t buff)
+{
+    if(filter)
+        rbusFilter_Encode(filter, buff);
+    else
+        rbusBuffer_WriteUInt32TLV(buff, RBUS_FILTER_NO_OPERAND);
+}
+
 void rbusFilter_Encode(rbusFilter_t filter, rbusBuffer_t buff)
 {
     VERIFY_NULL(filter);
@@ -229,19 +240,19 @@ void rbusFilter_Encode(rbusFilter_t filter, rbusBuffer_t buff)
     else if(filter->type == RBUS_FILTER_EXPRESSION_LOGIC)
     {
         rbusBuffer_WriteUInt32TLV(buff, filter->e.logic.op);
-        rbusFilter_Encode(filter->e.logic.left, buff);
-        rbusFilter_Encode(filter->e.logic.right, buff);
+        rbusFilter_EncodeOperand(filter->e.logic.left, buff);
+        rbusFilter_EncodeOperand(filter->e.logic.right, buff);
     }
 }
 
-int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
+static int rbusFilter_DecodeOperand(rbusFilter_t* filterOut, rbusBuffer_t const buff, bool optional)
 {
     uint16_t    type;
     uint16_t    length;
     rbusFilter_t filter;
-    rbusFilter_ExpressionType_t filterType;
-    rbusFilter_RelationOperator_t relOp;
-    rbusFilter_LogicOperator_t logOp;
+    uint32_t filterType;
+    uint32_t relOp;
+    uint32_t logOp;
     rbusValue_t val;
     rbusFilter_t left, right;
 
@@ -289,19 +300,36 @@ int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
         }
         if(rbusBuffer_ReadUInt32(buff, &logOp) < 0)
             return -1;
-        if(rbusFilter_Decode(&left, buff) < 0)
+        if(rbusFilter_DecodeOperand(&left, buff, true) < 0)
             return -1;
-        if(rbusFilter_Decode(&right, buff) < 0)
+        if(rbusFilter_DecodeOperand(&right, buff, true) < 0)
+        {
+            rbusFilter_Release(left);
             return -1;
+        }
 
         rbusFilter_InitLogic(&filter, logOp, left, right);
         rbusFilter_Release(left);
         rbusFilter_Release(right);
     }
+    else if(optional && filterType == RBUS_FILTER_NO_OPERAND)
+    {
+        filter = NULL;
+    }
+    else
+    {
+        RBUSLOG_WARN("rbusFilter_Decode failed");
+        return -1;
+    }
     *filterOut = filter;
     return 0;
 }
 
+int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
+{
+    return rbusFilter_DecodeOperand(filterOut, buff, false);
+}
+
 int rbusFilter_Compare(rbusFilter_t filter1, rbusFilter_t filter2)
 {
     if(filter1 && filter2)
-- 
2.43.0


From 2a6256133cf88b02f44b0f8f3f6fd3d5f25b1479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:42 +0000
Subject: [PATCH 13/25] fix: rtBase64_decode of an empty text and of stray
 padding

An empty text made it read in front of the buffer, and a '=' before the last
character was taken for padding whatever followed it.
---
 src/rtmessage/rtBase64.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rtmessage/rtBase64.c b/src/rtmessage/rtBase64.c
index fb876dd..3f4463d 100644
--- a/src/rtmessage/rtBase64.c
+++ b/src/rtmessage/rtBase64.c
@@ -145,7 +145,11 @@ rtError rtBase64_decode(const unsigned char * in, const unsigned int in_size,  v
 
     /*Allocate memory for the output*/
     *out_size = in_size * 3 / 4;
-    if('=' == in[in_size -2])
+    if(0 == in_size)
+    {
+        /*Nothing was encoded.*/
+    }
+    else if('=' == in[in_size -2] && '=' == in[in_size -1])
     {
         /*Two character padding.*/
         num_padding_bytes = 2;
@@ -193,7 +197,7 @@ rtError rtBase64_decode(const unsigned char * in, const unsigned int in_size,  v
         rtLog_Error("Decode error.");
         free(write_buff);
         *out = NULL;
-        out_size = 0;
+        *out_size = 0;
         return RT_ERROR;
     }
     *out = write_buff;
-- 
2.43.0


From 0c9016ee46719c8ed4ff4584543524e655b2e439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:42 +0000
Subject: [PATCH 14/25] fix: rtMessageHeader_Decode terminates topics and
 checks the header length

Topics decoded into a header that was used before were not terminated, and a
header length which disagrees with the contents was accepted, though the
payload is taken to start there.
---
 src/rtmessage/rtMessageHeader.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rtmessage/rtMessageHeader.c b/src/rtmessage/rtMessageHeader.c
index 09d8551..efe8b21 100644
--- a/src/rtmessage/rtMessageHeader.c
+++ b/src/rtmessage/rtMessageHeader.c
@@ -108,6 +108,7 @@ rtMessageHeader_Decode(rtMessageHeader* hdr, uint8_t const* buff)
     return RT_ERROR;
   }
   rtEncoder_DecodeStr(&ptr, hdr->topic, hdr->topic_length);
+  hdr->topic[hdr->topic_length] = '\0';
 
   rtEncoder_DecodeUInt32(&ptr, &hdr->reply_topic_length);
   if(hdr->reply_topic_length >= sizeof(hdr->reply_topic)) {
@@ -119,6 +120,7 @@ rtMessageHeader_Decode(rtMessageHeader* hdr, uint8_t const* buff)
     return RT_ERROR;
   }
   rtEncoder_DecodeStr(&ptr, hdr->reply_topic, hdr->reply_topic_length);
+  hdr->reply_topic[hdr->reply_topic_length] = '\0';
 #ifdef MSG_ROUNDTRIP_TIME
   rtEncoder_DecodeUInt32(&ptr, (uint32_t*)&hdr->T1);
   rtEncoder_DecodeUInt32(&ptr, (uint32_t*)&hdr->T2);
@@ -130,6 +132,10 @@ rtMessageHeader_Decode(rtMessageHeader* hdr, uint8_t const* buff)
   rtEncoder_DecodeUInt16(&ptr, &marker);
   if(RTMSG_HEADER_MARKER != marker)
     return RT_ERROR;
+  if(ptr - buff != hdr->header_length) {
+    rtLog_Warn("RTROUTED_INVALID_LENGTH: rtMessageHeader_Decode() - header_length %d", hdr->header_length);
+    return RT_ERROR;
+  }
   return RT_OK;
 }
 
-- 
2.43.0


From 52030a7cd133567a2c883192d83f50ce08e90326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:50 +0000
Subject: [PATCH 15/25] fix: rtSemaphore_TimedWait succeeds only when it took a
 token

---
 src/rtmessage/rtSemaphore.c | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/rtmessage/rtSemaphore.c b/src/rtmessage/rtSemaphore.c
index 45d64d4..f044198 100644
--- a/src/rtmessage/rtSemaphore.c
+++ b/src/rtmessage/rtSemaphore.c
@@ -98,22 +98,19 @@ rtError rtSemaphore_Wait(rtSemaphore sem)
 rtError rtSemaphore_TimedWait(rtSemaphore sem, struct timespec* t)
 {
   int rc = RT_OK;
-  int err;
+  int err = 0;
   ERROR_CHECK(pthread_mutex_lock(&sem->m));
-  if(sem->v > 0)
+  //a wake-up does not mean that a token is left for this thread
+  while(sem->v <= 0 && err == 0)
   {
-    sem->v--;
-    ERROR_CHECK(pthread_mutex_unlock(&sem->m));
-    return RT_OK;
+    if(t)
+      err = pthread_cond_timedwait(&sem->c, &sem->m, t);
+    else
+      err = pthread_cond_wait(&sem->c, &sem->m);
   }
-  if(t)
-    err = pthread_cond_timedwait(&sem->c, &sem->m, t);
-  else
-    err = pthread_cond_wait(&sem->c, &sem->m);
-  if(err == 0)
+  if(sem->v > 0)
   {
-    if(sem->v > 0)
-      sem->v--;
+    sem->v--;
   }
   else
   {
-- 
2.43.0


From 3baf81b4b13d5f1eb4a970134c8523792d05a691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:29 +0000
Subject: [PATCH 16/25] fix: rtThreadPool neither strands a queued task nor
 exceeds its thread limit

---
 src/rtmessage/rtThreadPool.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/rtmessage/rtThreadPool.c b/src/rtmessage/rtThreadPool.c
index 7e39550..734066f 100644
--- a/src/rtmessage/rtThreadPool.c
+++ b/src/rtmessage/rtThreadPool.c
@@ -112,13 +112,19 @@ int rtThread_DequeTask(rtThread thread)
   return 0;
 }
 
+static int rtThreadPool_HasTask(rtThreadPool pool)
+{
+  rtListItem item = NULL;
+  rtList_GetFront(pool->taskList, &item);
+  return item != NULL;
+}
+
 void* rtThread_WorkerThreadFunc(void* data)
 {
   rtLog_Debug("%s enter", __FUNCTION__);
   rtThread thread = (rtThread)data;
   rtThreadPool pool = thread->pool;
   pthread_mutex_lock(&pool->poolLock);
-  pool->threadCount++;
   while(pool->isRunning)
   {
     while(pool->isRunning && rtThread_DequeTask(thread))
@@ -139,7 +145,7 @@ void* rtThread_WorkerThreadFunc(void* data)
       rtLog_Debug("%s pthread_cond_wait before", __FUNCTION__);
       rc = pthread_cond_timedwait(&pool->taskCond, &pool->poolLock, &expireTime);
       rtLog_Debug("%s pthread_cond_wait after rc=%d", __FUNCTION__, rc);
-      if(rc == ETIMEDOUT)
+      if(rc == ETIMEDOUT && !rtThreadPool_HasTask(pool))//a task may have been queued while this thread timed out
       { 
         rtLog_Debug("%s thread expired", __FUNCTION__);
         break;
@@ -156,6 +162,7 @@ void* rtThread_WorkerThreadFunc(void* data)
 
 rtError rtThreadPool_CreateWorkerThread(rtThreadPool pool)
 {
+  int rc;
   rtThread thread;
   pthread_attr_t attr;
   rtLog_Debug("%s enter", __FUNCTION__);
@@ -166,9 +173,16 @@ rtError rtThreadPool_CreateWorkerThread(rtThreadPool pool)
   pthread_attr_init(&attr);
   if(pool->stackSize > 0)
     pthread_attr_setstacksize(&attr, pool->stackSize);
-  pthread_create(&thread->threadId, &attr, rtThread_WorkerThreadFunc, thread);
+  rc = pthread_create(&thread->threadId, &attr, rtThread_WorkerThreadFunc, thread);
   pthread_attr_destroy(&attr);
+  if(rc != 0)
+  {
+    free(thread);
+    return rtErrorFromErrno(rc);
+  }
   rtList_PushBack(pool->threadList, thread, NULL);
+  //counted here, under the caller's lock, because the thread may start late
+  pool->threadCount++;
   rtLog_Debug("%s exit", __FUNCTION__);
   return RT_OK;
 }
@@ -296,6 +310,7 @@ rtError rtThreadPool_RunTask(rtThreadPool pool, rtThreadPoolFunc func, void* use
   rtError err = RT_OK;
   rtListItem item;
   rtThreadTask task;
+  size_t size;
   pthread_mutex_lock(&pool->poolLock);
   //enque task
   rtList_PushBack(pool->taskList, rtListReuseData/*reuse data to avoid many allocs*/, &item);
@@ -314,7 +329,8 @@ rtError rtThreadPool_RunTask(rtThreadPool pool, rtThreadPoolFunc func, void* use
   task->func = func;
   task->userData = userData;
   //find and existing thread to handle the task
-  if(pool->busyThreadCount < pool->threadCount)
+  rtList_GetSize(pool->taskList, &size);
+  if(size <= pool->threadCount - pool->busyThreadCount)
   {
     rtLog_Debug("%s pthread_cond_signal before", __FUNCTION__);
     pthread_cond_signal(&pool->taskCond);
@@ -325,6 +341,7 @@ rtError rtThreadPool_RunTask(rtThreadPool pool, rtThreadPoolFunc func, void* use
     rtLog_Debug("%s creating new thread", __FUNCTION__);
     if((err = rtThreadPool_CreateWorkerThread(pool)) != RT_OK)
     {
+        rtList_RemoveItem(pool->taskList, item, NULL);
         pthread_mutex_unlock(&pool->poolLock);
         return err;
     }
-- 
2.43.0


From e1427d07f87786e89dcb71e2f3668f7c8066a8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:08 +0000
Subject: [PATCH 17/25] fix: TokenChain aliases match only rows that have the
 alias; one-character names, leading dots and error paths

---
 src/rbus/rbus_tokenchain.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/rbus/rbus_tokenchain.c b/src/rbus/rbus_tokenchain.c
index f86639d..9246236 100644
--- a/src/rbus/rbus_tokenchain.c
+++ b/src/rbus/rbus_tokenchain.c
@@ -97,6 +97,12 @@ TokenChain* TokenChain_create(char const* sourceName, elementNode* regNode)
         return NULL;
     }
 
+    if(*sourceName == '.')
+    {
+        RBUSLOG_ERROR("ERROR: sourceName starts with a dot");
+        return NULL;
+    }
+
     chain = rt_malloc(sizeof(TokenChain));
 
     chain->first = chain->last = NULL;
@@ -111,7 +117,7 @@ TokenChain* TokenChain_create(char const* sourceName, elementNode* regNode)
     RBUSLOG_INFO("%s DEBUG: %s, %s", __FUNCTION__, sourceName, regNode->fullName);
 #   endif
 
-    while(ptr != name && node->parent)
+    while((ptr != name || chain->last == NULL) && node->parent)
     {
         Token* tok;
 
@@ -224,7 +230,7 @@ tokenChainError:
     while(next)
     {
         Token* last = next;
-        next = next->next;
+        next = next->prev;
         free(last);
     }
     free(chain);
@@ -306,6 +312,7 @@ bool TokenChain_match(TokenChain* chain, elementNode* instNode)
             }
             else if(token->type == TokenAlias)
             {
+                rc = -1;/*a row without an alias matches no alias*/
                 if(inst->alias)
                 {
                     rc = strcmp(inst->alias, token->text);
-- 
2.43.0


From 891bc12023a3368938dc4d0f1bcb1a047c5616c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:39 +0000
Subject: [PATCH 18/25] fix: disconnects and row deletions remove exactly the
 subscriptions concerned; refused raw-data subscriptions are not kept

---
 src/rbus/rbus.c               |  6 ++++++
 src/rbus/rbus_subscriptions.c | 20 ++++++++++++++------
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 34c051e..57ca473 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1100,6 +1100,12 @@ int subscribeHandlerImpl(
     if(rawData)
         autoPublish = false;
 
+    if(added && rawData && el->type != RBUS_ELEMENT_TYPE_EVENT)
+    {
+        RBUSLOG_INFO("rawDataSubscription is only allowed for events");
+        return RBUS_ERROR_INVALID_INPUT;
+    }
+
     RBUSLOG_INFO("Consumer=%s %s to event=%s", listener, added ? "SUBSCRIBED" : "UNSUBSCRIBED", eventName);
 
     /* call the provider subHandler first to see if it overrides autoPublish */
diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 4b8a90f..43cddf6 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -20,6 +20,7 @@
 #include "rbus_subscriptions.h"
 #include "rbus_buffer.h"
 #include "rbus_handle.h"
+#include "rbus_intervalsubscription.h"
 #include <rtMemory.h>
 #include <string.h>
 #include <assert.h>
@@ -330,6 +331,7 @@ void rbusSubscriptions_onElementDeleted(rbusSubscriptions_t subscriptions, eleme
                     rtListItem item2;
                     elementNode* inst;
 
+                    val = false;
                     rtListItem_GetNext(item, &tempitem);
                     rtListItem_GetData(item, (void**)&sub);
 
@@ -350,8 +352,9 @@ void rbusSubscriptions_onElementDeleted(rbusSubscriptions_t subscriptions, eleme
                         rtListItem_GetNext(item2, &item2);
                     }
 
-                    /* RDKB-38389 : Removing the instance of the row to be removed from the subscriptions->subList linked list */
-                    if(val)
+                    /* RDKB-38389 : Removing the instance of the row to be removed from the subscriptions->subList linked list
+                       A wildcard subscription only loses the instance: it still covers the other rows and those added later */
+                    if(val && !strchr(sub->eventName, '*'))
                     {
                         subscription = rbusSubscriptions_getSubscription(subscriptions, sub->listener, sub->eventName,
                                 sub->componentId, sub->filter, sub->interval, sub->duration, sub->rawData);
@@ -361,6 +364,8 @@ void rbusSubscriptions_onElementDeleted(rbusSubscriptions_t subscriptions, eleme
                         }
                         else
                         {
+                            if(subscription->interval)
+                                rbusInterval_RemoveSubscriptionRecord(subscriptions->handle, child, subscription);
                             rbusSubscriptions_removeSubscription(subscriptions, subscription);
                         }
                     }
@@ -808,7 +813,8 @@ void rbusSubscriptions_resubscribeRowElementCache(rbusHandle_t handle, rbusSubsc
         {
             rtListItem next = NULL;
             rtListItem_GetNext(item, &next);
-            if(strncmp(sub->eventName, rowNode->fullName, strlen(rowNode->fullName)) == 0)
+            size_t rowLen = strlen(rowNode->fullName);
+            if(strncmp(sub->eventName, rowNode->fullName, rowLen) == 0 && sub->eventName[rowLen] == '.')
             {
                 el = retrieveInstanceElement(handleInfo->elementRoot, sub->eventName);
                 if(el)
@@ -849,13 +855,15 @@ void rbusSubscriptions_handleClientDisconnect(rbusHandle_t handle, rbusSubscript
         {
             /* RDKB-38389 : Checking for elementnode existence for which the eventname is subscribed */
             el = retrieveInstanceElement(handleInfo->elementRoot, sub->eventName);
-            if(el)
+            if(el && sub->element)
             {
-                subscribeHandlerImpl(handle, false, sub->element, sub->eventName, sub->listener, sub->componentId, 0, 0, 0, 0, 0);
+                subscribeHandlerImpl(handle, false, sub->element, sub->eventName, sub->listener, sub->componentId, sub->interval, sub->duration, sub->filter, sub->rawData, 0);
             }
             else
             {
-                RBUSLOG_WARN("rbusSubscriptions_handleClientDisconnect: unexpected! element not found");
+                /* nothing to tell the provider: the row is gone or the element was not registered again */
+                RBUSLOG_WARN("rbusSubscriptions_handleClientDisconnect: element not found");
+                rbusSubscriptions_removeSubscription(subscriptions, sub);
             }
         }
     }
-- 
2.43.0


From 299e5e5b714a6a92406b2f2e5c0e9bb9cec9c579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:09 +0000
Subject: [PATCH 19/25] fix: the subscription cache refuses malformed records
 instead of reading outside the file

---
 src/rbus/rbus_subscriptions.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 43cddf6..ab278c8 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -443,6 +443,7 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
     long size;
     uint16_t type, length;
     int32_t hasFilter;
+    int32_t flag;
     FILE* file = NULL;
     rbusBuffer_t buff = NULL;
     rbusSubscription_t* sub = NULL;
@@ -502,7 +503,8 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
         //read listener
         if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
         if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_STRING || length >= RBUS_MAX_NAME_LENGTH) goto remove_bad_file;
+        if(type != RBUS_STRING || length < 2 || length > RBUS_MAX_NAME_LENGTH) goto remove_bad_file;
+        if(length > buff->posWrite - buff->posRead) goto remove_bad_file;
 
         sub->listener = rt_calloc(1, length);
         if(!sub->listener)
@@ -511,12 +513,14 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
             goto remove_bad_file;
         }
         memcpy(sub->listener, buff->data + buff->posRead, length);
+        if(memchr(sub->listener, 0, length) != sub->listener + length - 1) goto remove_bad_file;
         buff->posRead += length;
 
         //read eventName
         if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
         if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_STRING || length >= RBUS_MAX_NAME_LENGTH) goto remove_bad_file;
+        if(type != RBUS_STRING || length == 0 || length > RBUS_MAX_NAME_LENGTH) goto remove_bad_file;
+        if(length > buff->posWrite - buff->posRead) goto remove_bad_file;
 
         sub->eventName = rt_try_calloc(1, length);
         if(!sub->eventName)
@@ -525,48 +529,51 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
             goto remove_bad_file;
         }
         memcpy(sub->eventName, buff->data + buff->posRead, length);
+        if(memchr(sub->eventName, 0, length) != sub->eventName + length - 1) goto remove_bad_file;
         buff->posRead += length;
 
         //read componentId
         if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
         if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
+        if(type != RBUS_INT32 || length != sizeof(int32_t)) goto remove_bad_file;
         if(rbusBuffer_ReadInt32(buff, &sub->componentId) < 0) goto remove_bad_file;
 
         //read interval
         if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
         if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
+        if(type != RBUS_INT32 || length != sizeof(int32_t)) goto remove_bad_file;
         if(rbusBuffer_ReadInt32(buff, &sub->interval) < 0) goto remove_bad_file;
 
         //read duration        
         if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
         if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
+        if(type != RBUS_INT32 || length != sizeof(int32_t)) goto remove_bad_file;
         if(rbusBuffer_ReadInt32(buff, &sub->duration) < 0) goto remove_bad_file;
 
         //read autoPublish
         if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
         if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, (int*)&sub->autoPublish) < 0) goto remove_bad_file;
+        if(type != RBUS_INT32 || length != sizeof(int32_t)) goto remove_bad_file;
+        if(rbusBuffer_ReadInt32(buff, &flag) < 0) goto remove_bad_file;
+        sub->autoPublish = (flag != 0);
 
         //read subscriptionId
         if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
         if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
+        if(type != RBUS_INT32 || length != sizeof(int32_t)) goto remove_bad_file;
         if(rbusBuffer_ReadInt32(buff, (int*)&sub->subscriptionId) < 0) goto remove_bad_file;
 
         //read rawData
         if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
         if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, (int*)&sub->rawData) < 0) goto remove_bad_file;
+        if(type != RBUS_INT32 || length != sizeof(int32_t)) goto remove_bad_file;
+        if(rbusBuffer_ReadInt32(buff, &flag) < 0) goto remove_bad_file;
+        sub->rawData = (flag != 0);
 
         //read hasFilter
         if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
         if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
+        if(type != RBUS_INT32 || length != sizeof(int32_t)) goto remove_bad_file;
         if(rbusBuffer_ReadInt32(buff, &hasFilter) < 0) goto remove_bad_file;
 
         //read filter
-- 
2.43.0


From 948a7bf8d74468b95914947c27f5a7ba48b1caf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:43 +0000
Subject: [PATCH 20/25] fix: registering a table keeps the elements already
 registered below it, rows follow later registrations, removals keep
 registered elements

---
 src/rbus/rbus_element.c | 78 +++++++++++++++++++++++++++++++----------
 1 file changed, 60 insertions(+), 18 deletions(-)

diff --git a/src/rbus/rbus_element.c b/src/rbus/rbus_element.c
index 60cb5f1..ab87f9c 100644
--- a/src/rbus/rbus_element.c
+++ b/src/rbus/rbus_element.c
@@ -170,8 +170,10 @@ void freeElementNode(elementNode* node)
     /*remove objects with no children
      could be an intermitent object added during insertElem
      or it could be a table which no longer has the {i}
-     however don't remove rows which are allowed to exist without child) */
-    if(parent && parent->parent && parent->child == NULL && parent->parent->type != RBUS_ELEMENT_TYPE_TABLE)
+     however don't remove rows which are allowed to exist without child
+     nor elements which were registered themselves) */
+    if(parent && parent->parent && parent->child == NULL && parent->parent->type != RBUS_ELEMENT_TYPE_TABLE &&
+       (parent->type == 0 || parent->type == RBUS_ELEMENT_TYPE_TABLE))
     {
         if(pruneNode)
             parent->nextPrune = pruneNode;
@@ -221,6 +223,30 @@ static void createElementChain(elementNode* node, elementNode*** chainOut, int*
 
 static void replicateAcrossTableRowInstances(elementNode* newNode);
 
+static elementNode* getRowTemplate(elementNode* tableNode)
+{
+    elementNode* child = tableNode->child;
+
+    while(child && strcmp(child->name, "{i}") != 0)
+        child = child->nextSibling;
+    return child;
+}
+
+/*remove a registered element which is not a table or row.
+  it remains as object if other elements are registered below it*/
+static void freeRegisteredElement(elementNode* node)
+{
+    if(node->child && node->type != 0 && node->type != RBUS_ELEMENT_TYPE_TABLE)
+    {
+        node->type = 0;
+        memset(&node->cbTable, 0, sizeof(node->cbTable));
+    }
+    else
+    {
+        freeElementNode(node);
+    }
+}
+
 elementNode* insertElement(elementNode* root, rbusDataElement_t* elem)
 {
     char* token = NULL;
@@ -357,12 +383,17 @@ elementNode* insertElement(elementNode* root, rbusDataElement_t* elem)
          */
         if(elem->type == RBUS_ELEMENT_TYPE_TABLE)
         {
-            elementNode* rowTemplate = getEmptyElementNode();
-            rowTemplate->parent = currentNode;
-            rowTemplate->name = strdup("{i}");
-            snprintf(buff, RBUS_MAX_NAME_LENGTH, "%s.%s", currentNode->fullName, rowTemplate->name);
-            rowTemplate->fullName = strdup(buff);
-            currentNode->child = rowTemplate;
+            /*elements below the table, including the template, might have been registered already*/
+            if(!getRowTemplate(currentNode))
+            {
+                elementNode* rowTemplate = getEmptyElementNode();
+                rowTemplate->parent = currentNode;
+                rowTemplate->name = strdup("{i}");
+                snprintf(buff, RBUS_MAX_NAME_LENGTH, "%s.%s", currentNode->fullName, rowTemplate->name);
+                rowTemplate->fullName = strdup(buff);
+                rowTemplate->nextSibling = currentNode->child;
+                currentNode->child = rowTemplate;
+            }
             currentNode->cbTable.tableSyncHandler = elem->cbTable.methodHandler;
         }
         else
@@ -679,7 +710,7 @@ static void removeElementInternal(elementNode* rowNode, elementNode** chain, int
                 {
                     if(i == numChain-1)
                     {
-                        freeElementNode(childNode);
+                        freeRegisteredElement(childNode);
                         return;
                     }
                     else
@@ -1010,13 +1041,7 @@ elementNode* instantiateTableRow(elementNode* tableNode, uint32_t instNum, char
 
     /*find the row template which has name="{i}"*/
 
-    rowTemplate = tableNode->child;
-    while(rowTemplate)
-    {
-        if(strcmp(rowTemplate->name, "{i}") == 0)
-            break;
-        rowTemplate = rowTemplate->nextSibling;
-    }
+    rowTemplate = getRowTemplate(tableNode);
 
     if(!rowTemplate)
     {
@@ -1112,8 +1137,9 @@ void replicateAcrossTableRowInstancesInternal(elementNode* rowNode, elementNode*
 
             while(childNode)
             {
-                //replicate for instance and template (this is internal table)
-                replicateAcrossTableRowInstancesInternal(childNode, &chain[i+1], numChain-i-1);
+                //replicate for instance and template (this is internal table), or only for the row the element was registered for
+                if(strcmp(chain[i]->name, "{i}") == 0 || strcmp(chain[i]->name, childNode->name) == 0)
+                    replicateAcrossTableRowInstancesInternal(childNode, &chain[i+1], numChain-i-1);
                 childNode = childNode->nextSibling;
             }
 
@@ -1149,6 +1175,19 @@ void replicateAcrossTableRowInstancesInternal(elementNode* rowNode, elementNode*
             }
         }
     }
+
+    /*the element existed already as object or was registered before: now its registered as chain describes*/
+    if(currentNode && numChain > 0 && i == numChain && currentNode != chain[i-1])
+    {
+        currentNode->type = chain[i-1]->type;
+        currentNode->cbTable = chain[i-1]->cbTable;
+        if(currentNode->type == RBUS_ELEMENT_TYPE_TABLE && !getRowTemplate(currentNode) && getRowTemplate(chain[i-1]))
+        {
+            elementNode* rows = currentNode->child;
+            currentNode->child = NULL;
+            duplicateNode(getRowTemplate(chain[i-1]), currentNode, "{i}")->nextSibling = rows;
+        }
+    }
 }
 
 void replicateAcrossTableRowInstances(elementNode* newNode)
@@ -1166,6 +1205,9 @@ void replicateAcrossTableRowInstances(elementNode* newNode)
 
         if(node->parent && node->parent->type == RBUS_ELEMENT_TYPE_TABLE)
         {
+            if(strcmp(node->name, "{i}") != 0)
+                continue; /*registered for one row only*/
+
             elementNode* childNode = node->parent->child;
 
             while(childNode)
-- 
2.43.0


From 9ef78c2d98d1e759a498a6515fbe2c0916b44600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:06 +0000
Subject: [PATCH 21/25] fix: a failed multi-parameter set reverts every
 parameter already set, also of other providers, and is never reported as
 success

---
 src/rbus/rbus.c | 175 +++++++++++++++++++++++++++---------------------
 1 file changed, 97 insertions(+), 78 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 57ca473..e7d5448 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1501,10 +1501,34 @@ exit_1:
     return RBUSCORE_SUCCESS;
 }
 
+/* give the parameters already set by a failed request their former values back, the last one set first */
+static void _rollback_set_values (rbusHandle_t handle, rbusProperty_t former, rbusSetHandlerOptions_t* opts, bool isCommit)
+{
+    struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
+
+    for( ; former; former = rbusProperty_GetNext(former))
+    {
+        rbusError_t err = RBUS_ERROR_ELEMENT_DOES_NOT_EXIST;
+        char const* paramName = rbusProperty_GetName(former);
+        elementNode* el = retrieveInstanceElement(handleInfo->elementRoot, paramName);
+
+        opts->commit = isCommit && rbusProperty_GetNext(former) == NULL;
+        if(el && el->cbTable.setHandler)
+        {
+            ELM_PRIVATE_LOCK(el);
+            err = el->cbTable.setHandler(handle, former, opts);
+            ELM_PRIVATE_UNLOCK(el);
+        }
+        if(err != RBUS_ERROR_SUCCESS)
+        {
+            RBUSLOG_WARN("Reverting paramValues of %s to initial values failed",paramName);
+        }
+    }
+}
+
 static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbusMessage *response)
 {
     rbusError_t rc = 0;
-    rbusError_t err = 0;
     int sessionId = 0;
     int numVals = 0;
     int loopCnt = 0;
@@ -1540,9 +1564,13 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
             for (loopCnt = 0; loopCnt < numVals; loopCnt++)
             {
                 rc = rbusProperty_initFromMessage(&pProperties[loopCnt], request);
+                if(rc != RBUS_ERROR_SUCCESS)
+                {
+                    pFailedElement = rbusProperty_GetName(pProperties[loopCnt]);
+                    numVals = loopCnt + 1; /*the others are not read*/
+                    goto exit;
+                }
             }
-            if(rc != RBUS_ERROR_SUCCESS)
-                goto exit;
             rbusMessage_GetString(request, (char const**) &pIsCommit);
 
             /* Since we set as string, this needs to compared with string..
@@ -1550,7 +1578,7 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
             * isCommit used to set only the last parameter in the list in order
             * to turn this into a bulk set operation: FIXME maybe we need a 'bulk' option
             */
-            if (strncasecmp("TRUE", pIsCommit, 4) == 0)
+            if (pIsCommit && strncasecmp("TRUE", pIsCommit, 4) == 0)
                 isCommit = true;
 
             for (loopCnt = 0; loopCnt < numVals; loopCnt++)
@@ -1571,6 +1599,12 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                                 ELM_PRIVATE_LOCK(el);
                                 rc = el->cbTable.getHandler(handle, currentData, &options);
                                 ELM_PRIVATE_UNLOCK(el);
+                                if(rc != RBUS_ERROR_SUCCESS)
+                                {
+                                    RBUSLOG_WARN("%s cannot be read so its value cannot be reverted",paramName);
+                                    rbusProperty_Release(currentData);
+                                    currentData = NULL;
+                                }
                            }
                            else
                                 RBUSLOG_INFO("%s is a write only parameter",paramName);
@@ -1585,25 +1619,8 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                         {
                             RBUSLOG_WARN("Set Failed for %s; Component Owner returned Error", paramName);
                             pFailedElement = paramName;
-                            if(rollBack == 1)
-                            {
-                                RBUSLOG_DEBUG("Reverting because set failed for this param:%s",pFailedElement);
-                                /*===========< Rollback old values >============*/
-                                rbusProperty_t prevProp = cachedData;
-                                while(prevProp)
-                                {
-                                    char const* prevParamName = rbusProperty_GetName(prevProp);
-                                    el = retrieveInstanceElement(handleInfo->elementRoot, prevParamName);
-                                    ELM_PRIVATE_LOCK(el);
-                                    err = el->cbTable.setHandler(handle, prevProp, &opts);
-                                    ELM_PRIVATE_UNLOCK(el);
-                                    prevProp = rbusProperty_GetNext(prevProp);
-                                    if(err != RBUS_ERROR_SUCCESS)
-                                    {
-                                        RBUSLOG_WARN("Reverting paramValues of %s to initial values failed",prevParamName);
-                                    }
-                                }
-                            }
+                            if(currentData)
+                                rbusProperty_Release(currentData);
                             break;
                         }
                         else
@@ -1612,15 +1629,11 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                             /* ======== < Old values backup >============= */
                             if (currentData)
                             {
-                                if (cachedData == NULL)
-                                    cachedData = currentData;
-                                else
-                                {
-                                    rbusProperty_Append(cachedData, currentData);
-                                    rbusProperty_Release(currentData);
-                                }
+                                /*the last one set comes first*/
+                                rbusProperty_SetNext(currentData, cachedData);
+                                rbusProperty_Release(cachedData);
+                                cachedData = currentData;
                             }
-
                         }
                     }
                     else
@@ -1628,8 +1641,6 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                         RBUSLOG_WARN("Set Failed for %s; No Handler found", paramName);
                         rc = RBUS_ERROR_NOT_WRITABLE;
                         pFailedElement = paramName;
-                        if(cachedData)
-                           rbusProperty_Release(cachedData);
                         break;
                     }
                 }
@@ -1641,6 +1652,11 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                     break;
                 }
             }
+            if(rc != RBUS_ERROR_SUCCESS && cachedData)
+            {
+                RBUSLOG_DEBUG("Reverting because set failed for this param:%s",pFailedElement);
+                _rollback_set_values(handle, cachedData, &opts, isCommit);
+            }
         }
         else
         {
@@ -1662,11 +1678,12 @@ exit:
     if (rc == RBUS_ERROR_SUCCESS)
     {
         rbusPropertyList_appendToMessage(cachedData, *response);
-        rbusProperty_Release(cachedData);
     }
     else if(pFailedElement)
         rbusMessage_SetString(*response, pFailedElement);
 
+    rbusProperty_Release(cachedData);
+
     if(pProperties)
     {
         for (loopCnt = 0; loopCnt < numVals; loopCnt++)
@@ -4145,6 +4162,8 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
     uint32_t cachedNumProps = 0;
     rbusProperty_t cachedProperties = NULL;
     VERIFY_NULL(handle);
+    if(pFailedElement)
+        *pFailedElement = NULL;
     if(timeout == 0)
         timeout = rbusHandle_FetchSetMultiTimeout(handle);
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
@@ -4154,9 +4173,12 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
 
     if (numProps > 0 && properties != NULL)
     {
-        if (rbusProperty_Count(properties) == 1)
+        if (numProps == 1 && rbusProperty_Count(properties) == 1)
         {
-            return _setInternal(handle, rbusProperty_GetName(properties), rbusProperty_GetValue(properties), opts, timeout);
+            errorcode = _setInternal(handle, rbusProperty_GetName(properties), rbusProperty_GetValue(properties), opts, timeout);
+            if(errorcode != RBUS_ERROR_SUCCESS && pFailedElement)
+                *pFailedElement = strdup(rbusProperty_GetName(properties));
+            return errorcode;
         }
 
         char const** pParamNames;
@@ -4304,63 +4326,60 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
                         legacyRetCode = (rbusLegacyReturn_t) ret;
                         if((errorcode == RBUS_ERROR_SUCCESS) || (legacyRetCode == RBUS_LEGACY_ERR_SUCCESS))
                         {
+                            rbusProperty_t formerValues = NULL;
                             errorcode = RBUS_ERROR_SUCCESS;
                             RBUSLOG_DEBUG("Successfully Set the Value");
-                            rbusPropertyList_initFromMessage(&cachedProperties, setResponse);
-                            pFailedElement = NULL;
-                        }
-                        else
-                        {
-                            if(pFailedElement)
-                            {
-                                rbusMessage_GetString(setResponse, &pErrorReason);
-                                *pFailedElement = strdup((char*)pErrorReason);
-                                RBUSLOG_WARN("Failed to Set the Value For %s", *pFailedElement);
-                            }
-                            else
-                            {
-                                rbusMessage_GetString(setResponse, &pErrorReason);
-                                RBUSLOG_WARN("Failed to Set the Value for %s", pErrorReason);
-                            }
-                            if(rollBack)
+                            rbusPropertyList_initFromMessage(&formerValues, setResponse);
+                            if(formerValues)
                             {
-                                char *pTempFailedElement = NULL;
-                                rbusSetOptions_t revertOpts;
-                                if ((opts) && (opts->sessionId != 0))
+                                if(cachedProperties)
                                 {
-                                    revertOpts.commit = true;
-                                    revertOpts.sessionId= opts->sessionId;
-                                }
-                                else
-                                {
-                                    revertOpts.commit = true;
-                                    revertOpts.sessionId = 0;
-                                }
-                                cachedNumProps = 0;
-                                cachedNumProps = rbusProperty_Count(cachedProperties);
-                                rbusError_t result;
-                                result = _setMultiInternal(handle, cachedNumProps, cachedProperties, &revertOpts, (int)timeout, &pTempFailedElement, false);
-                                if(result == RBUS_ERROR_SUCCESS)
-                                    RBUSLOG_DEBUG("Successfully reverted back the values");
-                                else if((result != RBUS_ERROR_SUCCESS) && (pTempFailedElement))
-                                {
-                                    RBUSLOG_WARN("Failed to rollback %s\n",pTempFailedElement);
-                                    free(pTempFailedElement);
+                                    rbusProperty_Append(formerValues, cachedProperties);
+                                    rbusProperty_Release(cachedProperties);
                                 }
+                                cachedProperties = formerValues;
                             }
+                        }
+                        else
+                        {
+                            rbusMessage_GetString(setResponse, &pErrorReason);
+                            RBUSLOG_WARN("Failed to Set the Value for %s", pErrorReason ? pErrorReason : "");
+                            if(pFailedElement && pErrorReason)
+                                *pFailedElement = strdup(pErrorReason);
                             if(legacyRetCode > RBUS_LEGACY_ERR_SUCCESS)
                             {
                                 errorcode = CCSPError_to_rbusError(legacyRetCode);
                             }
-                            if (componentName)
-                                free(componentName);
-                            rbusMessage_Release(setResponse);
-                            break;
                         }
 
                         /* Release the reponse message */
                         rbusMessage_Release(setResponse);
                     }
+                    if(errorcode != RBUS_ERROR_SUCCESS)
+                    {
+                        /* give the parameters other providers have set already their former values back */
+                        if(rollBack && cachedProperties)
+                        {
+                            char *pTempFailedElement = NULL;
+                            rbusSetOptions_t revertOpts;
+                            rbusError_t result;
+                            revertOpts.commit = true;
+                            revertOpts.sessionId = opts ? opts->sessionId : 0;
+                            cachedNumProps = rbusProperty_Count(cachedProperties);
+                            result = _setMultiInternal(handle, cachedNumProps, cachedProperties, &revertOpts, timeout, &pTempFailedElement, false);
+                            if(result == RBUS_ERROR_SUCCESS)
+                                RBUSLOG_DEBUG("Successfully reverted back the values");
+                            else
+                            {
+                                RBUSLOG_WARN("Failed to rollback %s\n",pTempFailedElement ? pTempFailedElement : "");
+                                free(pTempFailedElement);
+                            }
+                        }
+                        for(i = 0; i < numProps; ++i)
+                            free(componentNames[i]);
+                        free(componentName);
+                        break;
+                    }
                     if (componentName)
                         free(componentName);
                 }
-- 
2.43.0


From ec24aaf488cc143b01ec56befc4c477d75233c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:48 +0000
Subject: [PATCH 22/25] fix: messages with fields that do not parse are
 reported as errors instead of becoming other data

---
 src/rbus/rbus.c | 428 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 282 insertions(+), 146 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index e7d5448..c51db94 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -482,24 +482,73 @@ static bool _parse_rbusData_to_value (char const* pBuff, rbusLegacyDataType_t le
 rbusError_t rbusValue_initFromMessage(rbusValue_t* value, rbusMessage msg);
 void rbusValue_appendToMessage(char const* name, rbusValue_t value, rbusMessage msg);
 rbusError_t rbusProperty_initFromMessage(rbusProperty_t* property, rbusMessage msg);
-void rbusPropertyList_initFromMessage(rbusProperty_t* prop, rbusMessage msg);
+rbusError_t rbusPropertyList_initFromMessage(rbusProperty_t* prop, rbusMessage msg);
 void rbusPropertyList_appendToMessage(rbusProperty_t prop, rbusMessage msg);
-void rbusObject_initFromMessage(rbusObject_t* obj, rbusMessage msg);
+rbusError_t rbusObject_initFromMessage(rbusObject_t* obj, rbusMessage msg);
 void rbusObject_appendToMessage(rbusObject_t obj, rbusMessage msg);
-void rbusEventData_updateFromMessage(rbusEvent_t* event, rbusFilter_t* filter, uint32_t* interval,
+rbusError_t rbusEventData_updateFromMessage(rbusEvent_t* event, rbusFilter_t* filter, uint32_t* interval,
         uint32_t* duration, int32_t* componentId, rbusMessage msg);
 void rbusEventData_appendToMessage(rbusEvent_t* event, rbusFilter_t filter, uint32_t interval,
         uint32_t duration, int32_t componentId, rbusMessage msg);
 void rbusFilter_AppendToMessage(rbusFilter_t filter, rbusMessage msg);
 void rbusFilter_InitFromMessage(rbusFilter_t* filter, rbusMessage msg);
 
+/* the value as it is on the wire for the types which do not have a field kind of their own */
+static rbusError_t _value_from_bytes(rbusValue_t value, int type, uint8_t const* data, uint32_t length)
+{
+    switch(type)
+    {
+        case RBUS_STRING:
+            /*a null string has no content, others end with their null terminator*/
+            if(length == 0)
+                rbusValue_SetString(value, NULL);
+            else if(strnlen((char const*)data, length) + 1 == (size_t)length)
+                rbusValue_SetString(value, (char const*)data);
+            else
+                return RBUS_ERROR_INVALID_INPUT;
+            break;
+        case RBUS_BYTES:
+            rbusValue_SetBytes(value, data, length);
+            break;
+        case RBUS_BOOLEAN:
+            if(length != sizeof(bool))
+                return RBUS_ERROR_INVALID_INPUT;
+            rbusValue_SetBoolean(value, data[0] != 0);
+            break;
+        case RBUS_CHAR:
+        case RBUS_BYTE:
+        case RBUS_INT8:
+        case RBUS_UINT8:
+            if(length != 1)
+                return RBUS_ERROR_INVALID_INPUT;
+            rbusValue_SetTLV(value, type, length, data);
+            break;
+        case RBUS_DATETIME:
+            if(length != sizeof(rbusDateTime_t))
+                return RBUS_ERROR_INVALID_INPUT;
+            rbusValue_SetTLV(value, type, length, data);
+            break;
+        case RBUS_NONE:
+            if(length != 0)
+                return RBUS_ERROR_INVALID_INPUT;
+            break;
+        default:
+            return RBUS_ERROR_INVALID_INPUT;
+    }
+    return RBUS_ERROR_SUCCESS;
+}
+
+/* initializes the value. If it cannot be read from the message it is left without a type and an error is returned */
 rbusError_t rbusValue_initFromMessage(rbusValue_t* value, rbusMessage msg)
 {
-    uint8_t const* data;
-    bool rc = true;
-    uint32_t length;
-    int type;
+    rbusError_t err = RBUS_ERROR_INVALID_INPUT;
+    uint8_t const* data = NULL;
+    uint32_t length = 0;
+    int type = 0;
     char const* pBuffer = NULL;
+    int32_t ival;
+    int64_t i64;
+    double fval;
 
     if (!value)
     {
@@ -509,120 +558,126 @@ rbusError_t rbusValue_initFromMessage(rbusValue_t* value, rbusMessage msg)
 
     rbusValue_Init(value);
 
-    rbusMessage_GetInt32(msg, (int*) &type);
+    if(rbusMessage_GetInt32(msg, (int*) &type) != RT_OK)
+    {
+        RBUSLOG_WARN("RBUS_INVALID_INPUT");
+        return RBUS_ERROR_INVALID_INPUT;
+    }
 #if DEBUG_SERIALIZER
     RBUSLOG_INFO("> value pop type=%d", type);
 #endif
     if(type>=RBUS_LEGACY_STRING && type<=RBUS_LEGACY_NONE)
     {
-        rbusMessage_GetString(msg, &pBuffer);
-        RBUSLOG_DEBUG("Received Param Value in string : [%s]", pBuffer);
-        rc = _parse_rbusData_to_value (pBuffer, type, *value);
-        if(!rc)
+        if(rbusMessage_GetString(msg, &pBuffer) == RT_OK)
         {
-            RBUSLOG_WARN("RBUS_INVALID_INPUT");
-            return RBUS_ERROR_INVALID_INPUT;
+            RBUSLOG_DEBUG("Received Param Value in string : [%s]", pBuffer);
+            if(_parse_rbusData_to_value (pBuffer, type, *value))
+                err = RBUS_ERROR_SUCCESS;
         }
     }
     else
     {
-        if(type == RBUS_OBJECT)
-        {
-            rbusObject_t obj;
-            rbusObject_initFromMessage(&obj, msg);
-            rbusValue_SetObject(*value, obj);
-            rbusObject_Release(obj);
-        }
-        else
-        if(type == RBUS_PROPERTY)
-        {
-            rbusProperty_t prop;
-            rbusPropertyList_initFromMessage(&prop, msg);
-            rbusValue_SetProperty(*value, prop);
-            rbusProperty_Release(prop);
-        }
-        else
+        switch(type)
         {
-            int32_t ival;
-            int64_t i64;
-            double fval;
-
-            switch(type)
+            case RBUS_OBJECT:
             {
-                case RBUS_INT16:
-                    rbusMessage_GetInt32(msg, &ival);
-                    rbusValue_SetInt16(*value, (int16_t)ival);
+                rbusObject_t obj;
+                err = rbusObject_initFromMessage(&obj, msg);
+                if(err == RBUS_ERROR_SUCCESS)
+                {
+                    rbusValue_SetObject(*value, obj);
+                    rbusObject_Release(obj);
+                }
+                break;
+            }
+            case RBUS_PROPERTY:
+            {
+                rbusProperty_t prop;
+                err = rbusPropertyList_initFromMessage(&prop, msg);
+                if(err == RBUS_ERROR_SUCCESS)
+                {
+                    rbusValue_SetProperty(*value, prop);
+                    rbusProperty_Release(prop);
+                }
+                break;
+            }
+            case RBUS_INT16:
+            case RBUS_UINT16:
+            case RBUS_INT32:
+            case RBUS_UINT32:
+                if(rbusMessage_GetInt32(msg, &ival) != RT_OK)
                     break;
-                case RBUS_UINT16:
-                    rbusMessage_GetInt32(msg, &ival);
-                    rbusValue_SetUInt16(*value, (uint16_t)ival);
+                if((type == RBUS_INT16 && ival != (int16_t)ival) || (type == RBUS_UINT16 && ival != (uint16_t)ival))
                     break;
-                case RBUS_INT32:
-                    rbusMessage_GetInt32(msg, &ival);
+                err = RBUS_ERROR_SUCCESS;
+                if(type == RBUS_INT16)
+                    rbusValue_SetInt16(*value, (int16_t)ival);
+                else if(type == RBUS_UINT16)
+                    rbusValue_SetUInt16(*value, (uint16_t)ival);
+                else if(type == RBUS_INT32)
                     rbusValue_SetInt32(*value, (int32_t)ival);
-                    break;
-                case RBUS_UINT32:
-                    rbusMessage_GetInt32(msg, &ival);
+                else
                     rbusValue_SetUInt32(*value, (uint32_t)ival);
-
+                break;
+            case RBUS_INT64:
+            case RBUS_UINT64:
+                if(rbusMessage_GetInt64(msg, &i64) != RT_OK)
                     break;
-                case RBUS_INT64:
-                {
-                    rbusMessage_GetInt64(msg, &i64);
+                err = RBUS_ERROR_SUCCESS;
+                if(type == RBUS_INT64)
                     rbusValue_SetInt64(*value, (int64_t)i64);
-                    break;
-                }
-                case RBUS_UINT64:
-                {
-                    rbusMessage_GetInt64(msg, &i64);
+                else
                     rbusValue_SetUInt64(*value, (uint64_t)i64);
+                break;
+            case RBUS_SINGLE:
+            case RBUS_DOUBLE:
+                if(rbusMessage_GetDouble(msg, &fval) != RT_OK)
                     break;
-                }
-                case RBUS_SINGLE:
-                    rbusMessage_GetDouble(msg, &fval);
+                err = RBUS_ERROR_SUCCESS;
+                if(type == RBUS_SINGLE)
                     rbusValue_SetSingle(*value, (float)fval);
-                    break;
-                case RBUS_DOUBLE:
-                    rbusMessage_GetDouble(msg, &fval);
+                else
                     rbusValue_SetDouble(*value, (double)fval);
-                    break;
-                case RBUS_DATETIME:
-                    rbusMessage_GetBytes(msg, &data, &length);
-                    rbusValue_SetTLV(*value, type, length, data);
-                    break;
-                default:
-                    rbusMessage_GetBytes(msg, &data, &length);
-                    rbusValue_SetTLV(*value, type, length, data);
-                    break;
-            }
-
+                break;
+            default:
+                if(rbusMessage_GetBytes(msg, &data, &length) == RT_OK)
+                    err = _value_from_bytes(*value, type, data, length);
+                break;
+        }
 #if DEBUG_SERIALIZER
-            char* sv = rbusValue_ToString(*value,0,0);
-            RBUSLOG_INFO("> value pop data=%s", sv);
-            free(sv);
+        char* sv = rbusValue_ToString(*value,0,0);
+        RBUSLOG_INFO("> value pop data=%s", sv);
+        free(sv);
 #endif
-        }
     }
-    return RBUS_ERROR_SUCCESS;
+    if(err != RBUS_ERROR_SUCCESS)
+    {
+        RBUSLOG_WARN("RBUS_INVALID_INPUT");
+    }
+    return err;
 }
 
 rbusError_t rbusProperty_initFromMessage(rbusProperty_t* property, rbusMessage msg)
 {
-    char const* name;
+    char const* name = NULL;
     rbusValue_t value;
     rbusError_t err = RBUS_ERROR_SUCCESS;
 
-    rbusMessage_GetString(msg, (char const**) &name);
-#if DEBUG_SERIALIZER
-    RBUSLOG_INFO("> prop pop name=%s", name);
-#endif
-
     if (!property)
     {
         RBUSLOG_ERROR("rbusProperty_initFromMessage: property is NULL");
         return RBUS_ERROR_INVALID_INPUT;
     }
 
+    if(rbusMessage_GetString(msg, (char const**) &name) != RT_OK)
+    {
+        rbusProperty_Init(property, "", NULL);
+        return RBUS_ERROR_INVALID_INPUT;
+    }
+#if DEBUG_SERIALIZER
+    RBUSLOG_INFO("> prop pop name=%s", name);
+#endif
+
     rbusProperty_Init(property, name, NULL);
     err= rbusValue_initFromMessage(&value, msg);
     rbusProperty_SetValue(*property, value);
@@ -651,29 +706,39 @@ void rbusPropertyList_appendToMessage(rbusProperty_t prop, rbusMessage msg)
     }
 }
 
-void rbusPropertyList_initFromMessage(rbusProperty_t* prop, rbusMessage msg)
+/* on failure the list is set to NULL */
+rbusError_t rbusPropertyList_initFromMessage(rbusProperty_t* prop, rbusMessage msg)
 {
     rbusProperty_t previous = NULL, first = NULL;
+    rbusError_t err = RBUS_ERROR_SUCCESS;
     int numProps = 0;
-    rbusMessage_GetInt32(msg, (int*) &numProps);
+
+    *prop = NULL;
+    if(rbusMessage_GetInt32(msg, (int*) &numProps) != RT_OK || numProps < 0)
+        return RBUS_ERROR_INVALID_INPUT;
 #if DEBUG_SERIALIZER
     RBUSLOG_INFO("> prop pop numProps=%d", numProps);
 #endif
-    while(--numProps >= 0)
+    while(err == RBUS_ERROR_SUCCESS && --numProps >= 0)
     {
-        rbusProperty_t prop;
-        rbusProperty_initFromMessage(&prop, msg);
+        rbusProperty_t next;
+        err = rbusProperty_initFromMessage(&next, msg);
         if(first == NULL)
-            first = prop;
+            first = next;
         if(previous != NULL)
         {
-            rbusProperty_SetNext(previous, prop);
-            rbusProperty_Release(prop);
+            rbusProperty_SetNext(previous, next);
+            rbusProperty_Release(next);
         }
-        previous = prop;
+        previous = next;
+    }
+    if(err != RBUS_ERROR_SUCCESS)
+    {
+        rbusProperty_Release(first);
+        return err;
     }
-    /*TODO we need to release the props we inited*/
     *prop = first;
+    return RBUS_ERROR_SUCCESS;
 }
 
 void rbusObject_appendToMessage(rbusObject_t obj, rbusMessage msg)
@@ -711,31 +776,39 @@ void rbusObject_appendToMessage(rbusObject_t obj, rbusMessage msg)
     }
 }
 
-void rbusObject_initFromMessage(rbusObject_t* obj, rbusMessage msg)
+/* on failure the object is set to NULL */
+rbusError_t rbusObject_initFromMessage(rbusObject_t* obj, rbusMessage msg)
 {
     char const* name = NULL;
     int type = 0;
     int numChild = 0;
+    rbusError_t err;
     rbusProperty_t prop;
     rbusObject_t children=NULL, previous=NULL;
 
-    rbusMessage_GetString(msg, &name);
-    rbusMessage_GetInt32(msg, &type);
+    *obj = NULL;
+    if(rbusMessage_GetString(msg, &name) != RT_OK || rbusMessage_GetInt32(msg, &type) != RT_OK)
+        return RBUS_ERROR_INVALID_INPUT;
 #if DEBUG_SERIALIZER
     RBUSLOG_INFO("> object pop name=%s type=%d", name, type);
 #endif
 
-    rbusPropertyList_initFromMessage(&prop, msg);
+    err = rbusPropertyList_initFromMessage(&prop, msg);
+    if(err != RBUS_ERROR_SUCCESS)
+        return err;
 
-    rbusMessage_GetInt32(msg, &numChild);
+    if(rbusMessage_GetInt32(msg, &numChild) != RT_OK || numChild < 0)
+        err = RBUS_ERROR_INVALID_INPUT;
 #if DEBUG_SERIALIZER
     RBUSLOG_INFO("> object pop numChild=%d", numChild);
 #endif
 
-    while(--numChild >= 0)
+    while(err == RBUS_ERROR_SUCCESS && --numChild >= 0)
     {
         rbusObject_t next;
-        rbusObject_initFromMessage(&next, msg);/*object child object*/
+        err = rbusObject_initFromMessage(&next, msg);/*object child object*/
+        if(err != RBUS_ERROR_SUCCESS)
+            break;
         if(children == NULL)
             children = next;
         if(previous != NULL)
@@ -746,15 +819,19 @@ void rbusObject_initFromMessage(rbusObject_t* obj, rbusMessage msg)
         previous = next;
     }
 
-    if(type == RBUS_OBJECT_MULTI_INSTANCE)
-        rbusObject_InitMultiInstance(obj, name);
-    else
-        rbusObject_Init(obj, name);
+    if(err == RBUS_ERROR_SUCCESS)
+    {
+        if(type == RBUS_OBJECT_MULTI_INSTANCE)
+            rbusObject_InitMultiInstance(obj, name);
+        else
+            rbusObject_Init(obj, name);
 
-    rbusObject_SetProperties(*obj, prop);
+        rbusObject_SetProperties(*obj, prop);
+        rbusObject_SetChildren(*obj, children);
+    }
     rbusProperty_Release(prop);
-    rbusObject_SetChildren(*obj, children);
     rbusObject_Release(children);
+    return err;
 }
 
 void rbusValue_appendToMessage(char const* name, rbusValue_t value, rbusMessage msg)
@@ -867,18 +944,19 @@ void rbusFilter_InitFromMessage(rbusFilter_t* filter, rbusMessage msg)
     {
         char const* name;
         rbusValue_t val;
-        rbusMessage_GetInt32(msg, &op);
-        rbusMessage_GetString(msg, &name);
-        rbusValue_initFromMessage(&val, msg);
-        rbusFilter_InitRelation(filter, op, val);
+        if(rbusMessage_GetInt32(msg, &op) != RT_OK || rbusMessage_GetString(msg, &name) != RT_OK)
+            return;
+        if(rbusValue_initFromMessage(&val, msg) == RBUS_ERROR_SUCCESS)
+            rbusFilter_InitRelation(filter, op, val);
         rbusValue_Release(val);
     }
     else if(type == RBUS_FILTER_EXPRESSION_LOGIC)
     {
         rbusFilter_t left = NULL, right = NULL;
-        rbusMessage_GetInt32(msg, &op);
+        if(rbusMessage_GetInt32(msg, &op) != RT_OK)
+            return;
         rbusFilter_InitFromMessage(&left, msg);
-        if(op != RBUS_FILTER_OPERATOR_NOT)
+        if(left && op != RBUS_FILTER_OPERATOR_NOT)
             rbusFilter_InitFromMessage(&right, msg);
         rbusFilter_InitLogic(filter, op, left, right);
         rbusFilter_Release(left);
@@ -887,36 +965,53 @@ void rbusFilter_InitFromMessage(rbusFilter_t* filter, rbusMessage msg)
     }
 }
 
-void rbusEventData_updateFromMessage(rbusEvent_t* event, rbusFilter_t* filter,
+/* on failure the event has no data and the filter is set to NULL */
+rbusError_t rbusEventData_updateFromMessage(rbusEvent_t* event, rbusFilter_t* filter,
         uint32_t* interval, uint32_t* duration, int32_t* componentId, rbusMessage msg)
 {
-    char const* name;
-    int type;
+    char const* name = NULL;
+    int type = 0;
     rbusObject_t data = NULL;
     int hasFilter = false;
     int hasEventData =  false;
-    
-    rbusMessage_GetString(msg, (char const**) &name);
-    rbusMessage_GetInt32(msg, (int*) &type);
+
+    *filter = NULL;
+    event->data = NULL;
+    if(rbusMessage_GetString(msg, (char const**) &name) != RT_OK ||
+       rbusMessage_GetInt32(msg, (int*) &type) != RT_OK ||
+       rbusMessage_GetInt32(msg, &hasEventData) != RT_OK)
+        return RBUS_ERROR_INVALID_INPUT;
 #if DEBUG_SERIALIZER
     RBUSLOG_INFO("> event pop name=%s type=%d", name, type);
 #endif
-    rbusMessage_GetInt32(msg, &hasEventData);
-    if (hasEventData)
-        rbusObject_initFromMessage(&data, msg);
+    if (hasEventData && rbusObject_initFromMessage(&data, msg) != RBUS_ERROR_SUCCESS)
+        return RBUS_ERROR_INVALID_INPUT;
 
-    rbusMessage_GetInt32(msg, &hasFilter);
+    if(rbusMessage_GetInt32(msg, &hasFilter) != RT_OK)
+        goto malformed;
     if(hasFilter)
+    {
         rbusFilter_InitFromMessage(filter, msg);
-    else
-        *filter = NULL;
+        if(!*filter)
+            goto malformed;
+    }
+
+    if(rbusMessage_GetUInt32(msg, interval) != RT_OK ||
+       rbusMessage_GetUInt32(msg, duration) != RT_OK ||
+       rbusMessage_GetInt32(msg, componentId) != RT_OK)
+        goto malformed;
 
     event->name = name;
     event->type = type;
     event->data = data;
-    rbusMessage_GetUInt32(msg, interval);
-    rbusMessage_GetUInt32(msg, duration);
-    rbusMessage_GetInt32(msg, componentId);
+    return RBUS_ERROR_SUCCESS;
+
+malformed:
+    rbusObject_Release(data);
+    if(*filter)
+        rbusFilter_Release(*filter);
+    *filter = NULL;
+    return RBUS_ERROR_INVALID_INPUT;
 }
 
 void rbusEventData_appendToMessage(rbusEvent_t* event, rbusFilter_t filter,
@@ -1420,8 +1515,12 @@ int _event_callback_handler (char const* objectName, char const* eventName, rbus
 
     handler = (rbusEventHandler_t)subscription->handler;
 
-    rbusEventData_updateFromMessage(&event, &filter, &interval, &duration, &componentId, message);
-    
+    if(rbusEventData_updateFromMessage(&event, &filter, &interval, &duration, &componentId, message) != RBUS_ERROR_SUCCESS)
+    {
+        RBUSLOG_ERROR("Received malformed event: objectName=%s eventName=%s", objectName, eventName);
+        return RBUS_ERROR_BUS_ERROR;
+    }
+
     (*handler)(subscription->handle, &event, subscription);
 
     rbusObject_Release(event.data);
@@ -1444,7 +1543,11 @@ static int _master_event_callback_handler(char const* sender, char const* eventN
     UNUSED1(userData);
     rbusError_t errorcode = RBUS_ERROR_SUCCESS;
 
-    rbusEventData_updateFromMessage(&event, &filter, &interval, &duration, &componentId, message);
+    if(rbusEventData_updateFromMessage(&event, &filter, &interval, &duration, &componentId, message) != RBUS_ERROR_SUCCESS)
+    {
+        RBUSLOG_ERROR("Received malformed event: sender=%s eventName=%s", sender, eventName);
+        return RBUSCORE_ERROR_EVENT_NOT_HANDLED;
+    }
 
     LockMutex();
     handleInfo = rbusHandleList_GetByComponentID(componentId);
@@ -2485,7 +2588,8 @@ static int _method_callback_handler(rbusHandle_t handle, rbusMessage request, rb
     rbusError_t result = RBUS_ERROR_BUS_ERROR;
     int sessionId;
     int hasInParam = 0;
-    char const* methodName;
+    bool malformed = false;
+    char const* methodName = NULL;
     rbusObject_t inParams, outParams;
     rbusValue_t value1, value2;
     rbusValue_t outParamsVal = NULL;
@@ -2494,13 +2598,14 @@ static int _method_callback_handler(rbusHandle_t handle, rbusMessage request, rb
     rbusValue_Init(&value2);
 
     rbusMessage_GetInt32(request, &sessionId);
-    rbusMessage_GetString(request, &methodName);
-    rbusMessage_GetInt32(request, &hasInParam);
-    if (hasInParam)
+    if(rbusMessage_GetString(request, &methodName) != RT_OK || rbusMessage_GetInt32(request, &hasInParam) != RT_OK)
+        malformed = true;
+    if (hasInParam && rbusObject_initFromMessage(&inParams, request) != RBUS_ERROR_SUCCESS)
     {
-        rbusObject_initFromMessage(&inParams, request);
+        malformed = true;
+        hasInParam = 0;
     }
-    else
+    if (!hasInParam)
     {
         rbusObject_Init(&inParams, NULL);
     }
@@ -2509,10 +2614,19 @@ static int _method_callback_handler(rbusHandle_t handle, rbusMessage request, rb
 
     rbusObject_Init(&outParams, NULL);
     /*get the element for the row */
-    elementNode* methRegElem = retrieveElement(handleInfo->elementRoot, methodName);
-    elementNode* methInstElem = retrieveInstanceElementEx(handle, handleInfo->elementRoot, methodName, true);
+    elementNode* methRegElem = malformed ? NULL : retrieveElement(handleInfo->elementRoot, methodName);
+    elementNode* methInstElem = malformed ? NULL : retrieveInstanceElementEx(handle, handleInfo->elementRoot, methodName, true);
 
-    if(methRegElem && methInstElem)
+    if(malformed)
+    {
+        RBUSLOG_ERROR("malformed request for method [%s]", methodName ? methodName : "");
+        result = RBUS_ERROR_INVALID_INPUT;
+        rbusValue_SetInt32(value1, RBUS_ERROR_INVALID_INPUT);
+        rbusValue_SetString(value2, "RBUS_ERROR_INVALID_INPUT");
+        rbusObject_SetValue(outParams, "error_code", value1);
+        rbusObject_SetValue(outParams, "error_string", value2);
+    }
+    else if(methRegElem && methInstElem)
     {
         if(methRegElem->cbTable.methodHandler)
         {
@@ -3562,7 +3676,12 @@ rbusError_t rbus_get(rbusHandle_t handle, char const* name, rbusValue_t* value)
                 rbusMessage_GetString(response, &buff);
                 if(buff && (strcmp(name, buff) == 0))
                 {
-                    rbusValue_initFromMessage(value, response);
+                    if(rbusValue_initFromMessage(value, response) != RBUS_ERROR_SUCCESS)
+                    {
+                        rbusValue_Release(*value);
+                        *value = NULL;
+                        errorcode = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
+                    }
                 }
                 else
                 {
@@ -3605,30 +3724,38 @@ rbusError_t _getExt_response_parser(rbusMessage response, int *numValues, rbusPr
         errorcode = RBUS_ERROR_SUCCESS;
         RBUSLOG_DEBUG("Received valid response!");
         rbusMessage_GetInt32(response, &numOfVals);
-        *numValues = numOfVals;
         RBUSLOG_DEBUG("Number of return params = %d", numOfVals);
 
         if(numOfVals)
         {
-            rbusProperty_t last;
-            for(i = 0; i < numOfVals; i++)
+            rbusProperty_t last = NULL;
+            rbusError_t err = RBUS_ERROR_SUCCESS;
+            for(i = 0; i < numOfVals && err == RBUS_ERROR_SUCCESS; i++)
             {
                 /* For the first instance, lets use the given pointer */
                 if (0 == i)
                 {
-                    rbusProperty_initFromMessage(retProperties, response);
+                    err = rbusProperty_initFromMessage(retProperties, response);
                     last = *retProperties;
                 }
                 else
                 {
                     rbusProperty_t tmpProperties;
-                    rbusProperty_initFromMessage(&tmpProperties, response);
+                    err = rbusProperty_initFromMessage(&tmpProperties, response);
                     rbusProperty_SetNext(last, tmpProperties);
                     rbusProperty_Release(tmpProperties);
                     last = tmpProperties;
                 }
             }
+            if(err != RBUS_ERROR_SUCCESS)
+            {
+                rbusProperty_Release(*retProperties);
+                *retProperties = NULL;
+                numOfVals = 0;
+                errorcode = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
+            }
         }
+        *numValues = numOfVals;
     }
     else
     {
@@ -6126,7 +6253,16 @@ rbusError_t rbusMethod_InvokeInternal(
     rbusMessage_GetInt32(response, &returnCode);
     legacyRetCode = (rbusLegacyReturn_t)returnCode;
 
-    rbusObject_initFromMessage(outParams, response);
+    if(rbusObject_initFromMessage(outParams, response) != RBUS_ERROR_SUCCESS)
+    {
+        rbusObject_Init(outParams, NULL);
+        if(returnCode == RBUS_ERROR_SUCCESS || legacyRetCode == RBUS_LEGACY_ERR_SUCCESS)
+        {
+            RBUSLOG_ERROR("malformed response of method %s", methodName);
+            legacyRetCode = 0;
+            returnCode = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
+        }
+    }
     if(legacyRetCode >= RBUS_LEGACY_ERR_SUCCESS)
     {
         returnCode = CCSPError_to_rbusError(legacyRetCode);
-- 
2.43.0


From f1de83bbf514944190ea778fe5f4b0e3bdf97e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:01 +0000
Subject: [PATCH 23/25] fix: publishing marks only the data of the filtered
 subscriber concerned, skips damaged subscriptions

---
 src/rbus/rbus.c | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index c51db94..4c36967 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -6058,6 +6058,31 @@ rbusError_t  rbusEvent_PublishRawData(
     return rc;
 }
 
+/*a copy of the object which can be given further properties without changing the original*/
+static rbusObject_t _copy_event_data(rbusObject_t data)
+{
+    rbusObject_t copy = NULL;
+    rbusProperty_t prop, last = NULL;
+
+    if(rbusObject_GetType(data) == RBUS_OBJECT_MULTI_INSTANCE)
+        rbusObject_InitMultiInstance(&copy, rbusObject_GetName(data));
+    else
+        rbusObject_Init(&copy, rbusObject_GetName(data));
+    for(prop = rbusObject_GetProperties(data); prop; prop = rbusProperty_GetNext(prop))
+    {
+        rbusProperty_t next;
+        rbusProperty_Init(&next, rbusProperty_GetName(prop), rbusProperty_GetValue(prop));
+        if(last)
+            rbusProperty_SetNext(last, next);
+        else
+            rbusObject_SetProperties(copy, next);
+        rbusProperty_Release(next);
+        last = next;
+    }
+    rbusObject_SetChildren(copy, rbusObject_GetChildren(data));
+    return copy;
+}
+
 rbusError_t  rbusEvent_Publish(
   rbusHandle_t          handle,
   rbusEvent_t*          eventData)
@@ -6112,6 +6137,7 @@ rbusError_t  rbusEvent_Publish(
     while(listItem)
     {
         bool publish = true;
+        rbusEvent_t subscriberEvent = *eventData;
 
         rtListItem_GetData(listItem, (void**)&subscription);
         if(!subscription || !subscription->eventName || !subscription->listener)
@@ -6120,6 +6146,7 @@ rbusError_t  rbusEvent_Publish(
             if(errOut == RBUSCORE_SUCCESS)
                 errOut = RBUSCORE_ERROR_GENERAL;
             rtListItem_GetNext(listItem, &listItem);
+            continue;
         }
 
         if(eventData->type == RBUS_EVENT_VALUE_CHANGED)
@@ -6141,12 +6168,14 @@ rbusError_t  rbusEvent_Publish(
 
                 if(newResult != oldResult)
                 {
-                    /*set 'filter' to true/false implying that either the filter has started or stopped matching*/
+                    /*set 'filter' to true/false implying that either the filter has started or stopped matching
+                      in the data for this subscriber only*/
                     rbusValue_t filterResult = NULL;
                     rbusValue_Init(&filterResult);
                     rbusValue_SetBoolean(filterResult, newResult != 0);
-                    rbusObject_SetValue(eventData->data, "filter", filterResult);
-                    rbusValue_Release(filterResult);                    
+                    subscriberEvent.data = _copy_event_data(eventData->data);
+                    rbusObject_SetValue(subscriberEvent.data, "filter", filterResult);
+                    rbusValue_Release(filterResult);
                 }
                 else
                 {
@@ -6160,7 +6189,7 @@ rbusError_t  rbusEvent_Publish(
             rbusMessage msg;
             rbusMessage_Init(&msg);
 
-            rbusEventData_appendToMessage(eventData, subscription->filter, subscription->interval, subscription->duration, subscription->componentId, msg);
+            rbusEventData_appendToMessage(&subscriberEvent, subscription->filter, subscription->interval, subscription->duration, subscription->componentId, msg);
 
             RBUSLOG_DEBUG("rbusEvent_Publish: publishing event %s to listener %s", subscription->eventName, subscription->listener);
 
@@ -6180,6 +6209,8 @@ rbusError_t  rbusEvent_Publish(
                 RBUSLOG_ERROR("rbusEvent_Publish failed: rbus_publishSubscriberEvent return error %d", err);
             }
         }
+        if(subscriberEvent.data != eventData->data)
+            rbusObject_Release(subscriberEvent.data);
         rtListItem_GetNext(listItem, &listItem);
     }
     HANDLE_SUBS_MUTEX_UNLOCK(handle);
-- 
2.43.0


From 1602a2bfa29ba2f8b3e29f0864ae7fbdf3b47f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:37 +0000
Subject: [PATCH 24/25] fix: the value change poller watches a parameter once
 and each poller ends when it is told to

---
 src/rbus/rbus_valuechange.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/rbus/rbus_valuechange.c b/src/rbus/rbus_valuechange.c
index db975b2..b8722c2 100644
--- a/src/rbus/rbus_valuechange.c
+++ b/src/rbus/rbus_valuechange.c
@@ -61,6 +61,7 @@
 typedef struct ValueChangeDetector_t
 {
     int              running;
+    uintptr_t        generation;/*identifies the current polling thread*/
     rtVector         params;
     pthread_mutex_t  mutex;
     pthread_t        thread;
@@ -89,6 +90,7 @@ static void rbusValueChange_Init()
     gVC = rt_malloc(sizeof(struct ValueChangeDetector_t));
 
     gVC->running = 0;
+    gVC->generation = 0;
     gVC->params = NULL;
 
     rtVector_Create(&gVC->params);
@@ -126,10 +128,10 @@ static ValueChangeRecord* vcParams_Find(const elementNode* paramNode)
 
 static void* rbusValueChange_pollingThreadFunc(void *userData)
 {
-    (void)(userData);
+    uintptr_t generation = (uintptr_t)userData;
     RBUSLOG_DEBUG("%s: start", __FUNCTION__);
     LOCK();
-    while(gVC->running)
+    while(gVC->running && gVC->generation == generation)
     {
         size_t i;
         int err;
@@ -147,7 +149,7 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
             RBUSLOG_ERROR("Error %d:%s running command pthread_cond_timedwait", err, strerror(err));
         }
         
-        if(!gVC->running)
+        if(!gVC->running || gVC->generation != generation)
         {
             break;
         }
@@ -174,6 +176,7 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
             if(result != RBUS_ERROR_SUCCESS)
             {
                 RBUSLOG_WARN("failed to get current value of %s", rbusProperty_GetName(property));
+                rbusProperty_Release(property);
                 continue;
             }
 
@@ -313,6 +316,14 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
 
         LOCK();//############ LOCK ############
 
+        /* another thread might have added it while the lock was released */
+        if(vcParams_Find(propNode))
+        {
+            UNLOCK();
+            vcParams_Free(rec);
+            return;
+        }
+
         rtVector_PushBack(gVC->params, rec);
 
         /* start polling thread if needed */
@@ -320,7 +331,8 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
         if(!gVC->running)
         {
             gVC->running = 1;
-            pthread_create(&gVC->thread, NULL, rbusValueChange_pollingThreadFunc, NULL);
+            gVC->generation++;
+            pthread_create(&gVC->thread, NULL, rbusValueChange_pollingThreadFunc, (void*)gVC->generation);
         }
 
         UNLOCK();//############ UNLOCK ############
@@ -331,6 +343,7 @@ void rbusValueChange_RemovePropertyNode(rbusHandle_t handle, elementNode* propNo
 {
     ValueChangeRecord* rec;
     bool stopThread = false;
+    pthread_t thread;
 
     (void)(handle);
     VERIFY_NULL(propNode);
@@ -350,6 +363,7 @@ void rbusValueChange_RemovePropertyNode(rbusHandle_t handle, elementNode* propNo
         if(gVC->running && rtVector_Size(gVC->params) == 0)
         {
             stopThread = true;
+            thread = gVC->thread;/*another one might be started once the lock is released*/
             gVC->running = 0;
         }
         else 
@@ -364,8 +378,8 @@ void rbusValueChange_RemovePropertyNode(rbusHandle_t handle, elementNode* propNo
     UNLOCK();//############ UNLOCK ############
     if(stopThread)
     {
-        ERROR_CHECK(pthread_cond_signal(&gVC->cond));
-        ERROR_CHECK(pthread_join(gVC->thread, NULL));
+        ERROR_CHECK(pthread_cond_broadcast(&gVC->cond));
+        ERROR_CHECK(pthread_join(thread, NULL));
     }
 }
 
@@ -403,7 +417,7 @@ void rbusValueChange_CloseHandle(rbusHandle_t handle)
         {
             gVC->running = 0;
             UNLOCK();//############ UNLOCK ############
-            ERROR_CHECK(pthread_cond_signal(&gVC->cond));
+            ERROR_CHECK(pthread_cond_broadcast(&gVC->cond));
             ERROR_CHECK(pthread_join(gVC->thread, NULL));
         }
         else
-- 
2.43.0


From 00c2cf643c179338284c9456a7d9f63e6ad3d827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:45 +0000
Subject: [PATCH 25/25] fix: a parameter whose provider gives no former value
 is not reverted to a value without type

---
 src/rbus/rbus.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 4c36967..be674b4 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1702,7 +1702,7 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                                 ELM_PRIVATE_LOCK(el);
                                 rc = el->cbTable.getHandler(handle, currentData, &options);
                                 ELM_PRIVATE_UNLOCK(el);
-                                if(rc != RBUS_ERROR_SUCCESS)
+                                if(rc != RBUS_ERROR_SUCCESS || !rbusProperty_GetValue(currentData) || rbusValue_GetType(rbusProperty_GetValue(currentData)) == RBUS_NONE)
                                 {
                                     RBUSLOG_WARN("%s cannot be read so its value cannot be reverted",paramName);
                                     rbusProperty_Release(currentData);
-- 
2.43.0


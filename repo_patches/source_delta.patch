From 7a45ded66c57d0f55d22863e4485e55ff397d479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:07 +0000
Subject: [PATCH 01/80] fix: Trie lost a longer key when a prefix of it was
 stored later

---
 tools/gsmtermlib/trie.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/gsmtermlib/trie.py b/tools/gsmtermlib/trie.py
index 184a2fd..a4b5a43 100644
--- a/tools/gsmtermlib/trie.py
+++ b/tools/gsmtermlib/trie.py
@@ -25,6 +25,9 @@ class Trie(object):
     
         if len(key) == 0:
             # All of the original key's chars have been nibbled away            
+            if self.key != None and len(self.key) > 0:
+                # This was a "leaf" for a longer key - move its current value to a new branch
+                self.slots[self.key[0]] = Trie(self.key[1:], self.value)
             self.value = value
             self.key = ''
             return        
-- 
2.43.0


From f9e83d2d0c25317e84056a59e8e04ad45d7c4de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:07 +0000
Subject: [PATCH 02/80] fix: Trie.longestCommonPrefix() was wrong for keys that
 are prefixes of others and after deletions

---
 tools/gsmtermlib/trie.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/gsmtermlib/trie.py b/tools/gsmtermlib/trie.py
index a4b5a43..3a5ef29 100644
--- a/tools/gsmtermlib/trie.py
+++ b/tools/gsmtermlib/trie.py
@@ -76,6 +76,8 @@ class Trie(object):
                     del self.slots[c] # Remove the node
             else:
                 del trie[key[1:]]
+                if trie.key == None and len(trie.slots) == 0:
+                    del self.slots[c] # Nothing left below this node
         else:
             raise KeyError(key)
                 
@@ -170,7 +172,7 @@ class Trie(object):
                     return self.slots[c]._longestCommonPrefix('', prefix + c)
                 else:
                     return prefix
-        elif self.key != None:
+        elif self.key != None and len(self.key) > 0:
             if self.key.startswith(key):
                 return prefix + self.key
             else:
-- 
2.43.0


From f05861e498d70b251c739a19acb7588848752aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:07 +0000
Subject: [PATCH 03/80] fix: iterating over a Trie raised RuntimeError on
 Python 3.7+

---
 tools/gsmtermlib/trie.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tools/gsmtermlib/trie.py b/tools/gsmtermlib/trie.py
index 3a5ef29..971d70a 100644
--- a/tools/gsmtermlib/trie.py
+++ b/tools/gsmtermlib/trie.py
@@ -187,5 +187,4 @@ class Trie(object):
     def __iter__(self):
         for k in list(self.keys()):
             yield k
-        raise StopIteration
     
\ No newline at end of file
-- 
2.43.0


From 431d119455b897258afc4d643d1fd3a1661ae4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:20 +0000
Subject: [PATCH 04/80] fix: GSM-7 form feed, escape character and dangling
 escape code handling

---
 gsmmodem/pdu.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index ee15ebc..76d70c8 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -26,7 +26,7 @@ else: #pragma: no cover
 
 # Tables can be found at: http://en.wikipedia.org/wiki/GSM_03.38#GSM_7_bit_default_alphabet_and_extension_table_of_3GPP_TS_23.038_.2F_GSM_03.38
 GSM7_BASIC = ('@£$¥èéùìòÇ\nØø\rÅåΔ_ΦΓΛΩΠΨΣΘΞ\x1bÆæßÉ !\"#¤%&\'()*+,-./0123456789:;<=>?¡ABCDEFGHIJKLMNOPQRSTUVWXYZÄÖÑÜ`¿abcdefghijklmnopqrstuvwxyzäöñüà')
-GSM7_EXTENDED = {chr(0xFF): 0x0A,
+GSM7_EXTENDED = {'\x0c': chr(0x0A), # form feed / page break
                  #CR2: chr(0x0D),
                  '^':  chr(0x14),
                  #SS2: chr(0x1B),
@@ -676,7 +676,7 @@ def encodeGsm7(plaintext, discardInvalid=False):
         plaintext = str(plaintext)
     for char in plaintext:
         idx = GSM7_BASIC.find(char)
-        if idx != -1:
+        if idx != -1 and idx != 0x1B: # (the escape code itself is not a character)
             result.append(idx)
         elif char in GSM7_EXTENDED:
             result.append(0x1B) # ESC - switch to extended table
@@ -702,7 +702,7 @@ def decodeGsm7(encodedText):
     iterEncoded = iter(encodedText)
     for b in iterEncoded:
         if b == 0x1B: # ESC - switch to extended table
-            c = chr(next(iterEncoded))
+            c = chr(next(iterEncoded, 0x1B)) # escape at end of text: nothing to escape
             for char, value in dictItemsIter(GSM7_EXTENDED):
                 if c == value:
                     result.append(char)
-- 
2.43.0


From 827edc563c13dc7df1c78e34cb288cc328188065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:20 +0000
Subject: [PATCH 05/80] fix: packing an empty text raised StopIteration

---
 gsmmodem/pdu.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 76d70c8..92ae2b4 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -726,7 +726,10 @@ def packSeptets(octets, padBits=0):
         octets = iter(octets)
     shift = padBits
     if padBits == 0:
-        prevSeptet = next(octets)
+        try:
+            prevSeptet = next(octets)
+        except StopIteration:
+            return result # nothing to pack
     else:
         prevSeptet = 0x00
     for octet in octets:
-- 
2.43.0


From a977ba3fe975229773f30dda4acda197846b7fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:21 +0000
Subject: [PATCH 06/80] fix: decoding dropped characters of GSM-7 user data
 (empty, final @, some header lengths)

---
 gsmmodem/pdu.py | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 92ae2b4..fe1b283 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -434,16 +434,16 @@ def _decodeUserData(byteIter, userDataLen, dataCoding, udhPresent):
         if dataCoding == 0x00: # GSM-7
             # Since we are using 7-bit data, "fill bits" may have been added to make the UDH end on a septet boundary
             shift = ((udhLen + 1) * 8) % 7 # "fill bits" needed to make the UDH end on a septet boundary
-            # Simulate another "shift" in the unpackSeptets algorithm in order to ignore the fill bits
-            prevOctet = next(byteIter)
-            shift += 1
+            fillBits = (7 - shift) % 7
+            # The user data length is in septets, and includes the header and fill bits
+            userDataLen -= ((udhLen + 1) * 8 + fillBits) // 7
+        else:
+            userDataLen -= udhLen + 1
+    else:
+        fillBits = 0
 
     if dataCoding == 0x00: # GSM-7
-        if udhPresent:
-            userDataSeptets = unpackSeptets(byteIter, userDataLen, prevOctet, shift)
-        else:
-            userDataSeptets = unpackSeptets(byteIter, userDataLen)
-        result['text'] = decodeGsm7(userDataSeptets)
+        result['text'] = decodeGsm7(_unpackUserData(byteIter, userDataLen, fillBits))
     elif dataCoding == 0x02: # UCS2
         result['text'] = decodeUcs2(byteIter, userDataLen)
     else: # 8-bit (data)
@@ -453,6 +453,28 @@ def _decodeUserData(byteIter, userDataLen, dataCoding, udhPresent):
         result['text'] = ''.join(userData)
     return result
 
+def _unpackUserData(byteIter, numberOfSeptets, fillBits):
+    """ Unpacks the specified amount of septets (or as many as are present) following the fill bits """
+    result = bytearray()
+    value = 0
+    bits = -fillBits
+    while len(result) < numberOfSeptets:
+        if bits < 7:
+            octet = next(byteIter, None)
+            if octet == None:
+                break
+            if bits < 0: # discard fill bits
+                octet >>= -bits
+                value = octet
+            else:
+                value |= octet << bits
+            bits += 8
+        if bits >= 7:
+            result.append(value & 0x7F)
+            value >>= 7
+            bits -= 7
+    return result
+
 def _decodeRelativeValidityPeriod(tpVp):
     """ Calculates the relative SMS validity period (based on the table in section 9.2.3.12 of GSM 03.40)
     :rtype: datetime.timedelta
-- 
2.43.0


From 0461046f6d6bf5c11cdd934ca78bcdc661f3c297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:45 +0000
Subject: [PATCH 07/80] fix: characters outside the basic multilingual plane
 could not be sent or received as UCS2

---
 gsmmodem/pdu.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index fe1b283..907aaec 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -823,7 +823,11 @@ def decodeUcs2(byteIter, numBytes):
     i = 0
     try:
         while i < numBytes:
-            userData.append(unichr((next(byteIter) << 8) | next(byteIter)))
+            code = (next(byteIter) << 8) | next(byteIter)
+            if PYTHON_VERSION >= 3 and 0xDC00 <= code <= 0xDFFF and len(userData) > 0 and 0xD800 <= ord(userData[-1]) <= 0xDBFF:
+                # Second half of a surrogate pair
+                code = 0x10000 + ((ord(userData.pop()) & 0x3FF) << 10) + (code & 0x3FF)
+            userData.append(unichr(code))
             i += 2
     except StopIteration:
         # Not enough bytes in iterator to reach numBytes; return what we have
@@ -842,6 +846,13 @@ def encodeUcs2(text):
     """
     result = bytearray()
     for b in map(ord, text):
-        result.append(b >> 8)
-        result.append(b & 0xFF)
+        if b > 0xFFFF:
+            # Not part of the basic multilingual plane; encode as surrogate pair
+            b -= 0x10000
+            for surrogate in (0xD800 | (b >> 10), 0xDC00 | (b & 0x3FF)):
+                result.append(surrogate >> 8)
+                result.append(surrogate & 0xFF)
+        else:
+            result.append(b >> 8)
+            result.append(b & 0xFF)
     return result
-- 
2.43.0


From 4066bc0990375f1442900fe5c9c7e289bc9e772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:45 +0000
Subject: [PATCH 08/80] fix: long messages were truncated or split into invalid
 parts (part count, extension characters)

---
 gsmmodem/pdu.py | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 907aaec..e984674 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -284,11 +284,12 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
         alphabet = 0x00 # GSM-7    
         
     # Check if message should be concatenated
-    if len(text) > MAX_MESSAGE_LENGTH[alphabet]:
+    textParts = _splitText(text, alphabet)
+    if len(textParts) > 1:
         # Text too long for single PDU - add "concatenation" User Data Header
         concatHeaderPrototype = Concatenation()
         concatHeaderPrototype.reference = reference
-        pduCount = int(len(text) / MAX_MESSAGE_LENGTH[alphabet]) + 1
+        pduCount = len(textParts)
         concatHeaderPrototype.parts  = pduCount
         tpduFirstOctet |= 0x40
     else:
@@ -308,13 +309,8 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
         if concatHeaderPrototype != None:
             concatHeader = copy(concatHeaderPrototype)
             concatHeader.number = i + 1
-            if alphabet == 0x00:
-                pduText = text[i*153:(i+1) * 153]
-            elif alphabet == 0x08:
-                pduText = text[i * 67 : (i + 1) * 67]
             udh.extend(concatHeader.encode())
-        else:
-            pduText = text
+        pduText = textParts[i]
         
         udhLen = len(udh)        
         
@@ -354,6 +350,31 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
         pdus.append(Pdu(pdu, tpdu_length))
     return pdus
 
+def _splitText(text, alphabet):
+    """ Splits the text into parts that each fit into a single PDU (a single part if no concatenation header is needed)
+    
+    Note that some characters take up more space than others: GSM-7 extended characters use two septets, and
+    characters outside of Unicode's basic multilingual plane use two UCS2 characters; these are never split up.
+    """
+    if alphabet == 0x00: # GSM-7
+        sizes = [len(encodeGsm7(char)) for char in text]
+        maxPartSize = 153
+    else: # UCS2
+        sizes = [len(encodeUcs2(char)) // 2 for char in text]
+        maxPartSize = 67
+    if sum(sizes) <= MAX_MESSAGE_LENGTH[alphabet]:
+        return [text]
+    parts = []
+    start = partSize = 0
+    for i in xrange(len(text)):
+        if partSize + sizes[i] > maxPartSize:
+            parts.append(text[start:i])
+            start = i
+            partSize = 0
+        partSize += sizes[i]
+    parts.append(text[start:])
+    return parts
+
 def decodeSmsPdu(pdu):
     """ Decodes SMS pdu data and returns a tuple in format (number, text)
     
-- 
2.43.0


From 95703abe3b0de45d658212a7b7a90d4165b32f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:46 +0000
Subject: [PATCH 09/80] fix: validity periods shorter than 5 minutes could not
 be encoded

---
 gsmmodem/pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index e984674..6a1e572 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -523,7 +523,7 @@ def _encodeRelativeValidityPeriod(validityPeriod):
     #seconds = validityPeriod.total_seconds()
     seconds = validityPeriod.seconds + (validityPeriod.days * 24 * 3600)
     if seconds <= 43200: # 12 hours
-        tpVp = int(seconds / 300) - 1 # divide by 5 minutes, subtract 1
+        tpVp = max(int(seconds / 300) - 1, 0) # divide by 5 minutes, subtract 1 (minimum is 5 minutes)
     elif seconds <= 86400: # 24 hours
         tpVp = int((seconds - 43200) / 1800) + 143 # subtract 12 hours, divide by 30 minutes. add 143
     elif validityPeriod.days <= 30: # 30 days
-- 
2.43.0


From d3f96d4f03d60d86aaeb9d302e4361cde8d08219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:20 +0000
Subject: [PATCH 10/80] fix: 7-character alphanumeric addresses were encoded
 with a spurious trailing @

---
 gsmmodem/pdu.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 6a1e572..0193fb5 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -647,8 +647,9 @@ def _encodeAddressField(address, smscField=False):
             toa &= 0xFE # switch to "unknown" numbering plan
             alphaNumeric = True
     if  alphaNumeric:
-        addressValue = packSeptets(encodeGsm7(address, False))
-        addressLen = len(addressValue) * 2        
+        addressSeptets = encodeGsm7(address, False)
+        addressValue = packSeptets(addressSeptets)
+        addressLen = (len(addressSeptets) * 7 + 3) // 4 # amount of useful semi-octets
     else:
         addressValue = encodeSemiOctets(address)
         if smscField:            
-- 
2.43.0


From 074c817b2a821cb7712326bba292027797b3f8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:21 +0000
Subject: [PATCH 11/80] fix: TPDU length included the SMSC number if one was
 supplied

---
 gsmmodem/pdu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 0193fb5..869afef 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -304,6 +304,7 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
             pdu.extend(_encodeAddressField(smsc, smscField=True))
         else:
             pdu.append(0x00) # Don't supply an SMSC number - use the one configured in the device 
+        smscLen = len(pdu)
     
         udh = bytearray()
         if concatHeaderPrototype != None:
@@ -346,7 +347,7 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
         else:
             pdu.append(userDataLength)
         pdu.extend(userData) # User Data (message payload)
-        tpdu_length = len(pdu) - 1
+        tpdu_length = len(pdu) - smscLen
         pdus.append(Pdu(pdu, tpdu_length))
     return pdus
 
-- 
2.43.0


From 9d0df878555470db78af088b7b2bd8f7db73dd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:21 +0000
Subject: [PATCH 12/80] fix: 8-bit and UCS2 messages using message class or
 waiting indication coding were decoded as GSM-7

---
 gsmmodem/pdu.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 869afef..5da4f52 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -570,10 +570,14 @@ def _encodeTimestamp(timestamp):
     return encodeSemiOctets(dateStr)
 
 def _decodeDataCoding(octet):
-    if octet & 0xC0 == 0:
+    if octet & 0x80 == 0: # General data coding (possibly marked for automatic deletion)
         #compressed = octect & 0x20
         alphabet = (octet & 0x0C) >> 2
         return alphabet # 0x00 == GSM-7, 0x01 == 8-bit data, 0x02 == UCS2
+    elif octet & 0xF0 == 0xE0: # Message waiting indication (UCS2)
+        return 2
+    elif octet & 0xF0 == 0xF0: # Data coding/message class
+        return (octet & 0x04) >> 2
     # We ignore other coding groups
     return 0    
 
-- 
2.43.0


From adc67fe777d20b5757363370d42b3e7d5876fd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:21 +0000
Subject: [PATCH 13/80] fix: submit PDUs with an enhanced validity period were
 misread

---
 gsmmodem/pdu.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 5da4f52..18671ed 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -419,7 +419,10 @@ def decodeSmsPdu(pdu):
         result['protocol_id'] = next(pduIter)
         dataCoding = _decodeDataCoding(next(pduIter))
         validityPeriodFormat = (tpduFirstOctet & 0x18) >> 3 # bits 4,3
-        if validityPeriodFormat == 0x02: # TP-VP field present and integer represented (relative)
+        if validityPeriodFormat == 0x01: # TP-VP field present in enhanced format - skip it
+            for i in xrange(7):
+                next(pduIter)
+        elif validityPeriodFormat == 0x02: # TP-VP field present and integer represented (relative)
             result['validity'] = _decodeRelativeValidityPeriod(next(pduIter))
         elif validityPeriodFormat == 0x03: # TP-VP field present and semi-octet represented (absolute)            
             result['validity'] = _decodeTimestamp(pduIter)
-- 
2.43.0


From 7abc0175c919f80e5885311c52e4f3da53cacee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:22 +0000
Subject: [PATCH 14/80] fix: PDUs with an empty originating/destination address
 were misread

---
 gsmmodem/pdu.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 18671ed..da64d12 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -618,8 +618,11 @@ def _decodeAddressField(byteIter, smscField=False, log=False):
             if ton == 0x10: # International number
                 addressValue = '+' + addressValue
             return (addressValue, (addressLen + 1))
-    else:
+    elif smscField:
         return (None, 1)
+    else:
+        next(byteIter) # the type-of-address octet is present even if the address is empty
+        return (None, 2)
 
 def _encodeAddressField(address, smscField=False):
     """ Encodes the address into an address field
-- 
2.43.0


From aa9a5534228d0fd707d012a11f4303dd2466ec5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:22 +0000
Subject: [PATCH 15/80] fix: decoding incomplete or corrupt PDUs raised
 StopIteration, ValueError etc. instead of EncodingError

---
 gsmmodem/pdu.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index da64d12..8e7b4a2 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -392,6 +392,14 @@ def decodeSmsPdu(pdu):
     except Exception as e:
         # Python 2 raises TypeError, Python 3 raises binascii.Error
         raise EncodingError(e)
+    try:
+        return _decodeSmsPdu(pdu)
+    except (StopIteration, ValueError, TypeError, IndexError) as e:
+        # PDU data is incomplete or corrupt
+        raise EncodingError('Invalid SMS PDU: {0}'.format(e))
+
+def _decodeSmsPdu(pdu):
+    """ Private implementation of decodeSmsPdu() """
     result = {}
     pduIter = iter(pdu)
  
@@ -541,6 +549,8 @@ def _encodeRelativeValidityPeriod(validityPeriod):
 def _decodeTimestamp(byteIter):
     """ Decodes a 7-octet timestamp """
     dateStr = decodeSemiOctets(byteIter, 7)
+    if len(dateStr) != 14:
+        raise ValueError('Invalid or incomplete timestamp: {0}'.format(dateStr))
     timeZoneStr = dateStr[-2:]        
     return datetime.strptime(dateStr[:-2], '%y%m%d%H%M%S').replace(tzinfo=SmsPduTzInfo(timeZoneStr))
 
-- 
2.43.0


From 0b876ec6799541a02f3e08e4ee8a107e79f4a1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:22 +0000
Subject: [PATCH 16/80] fix: quarter-hour time zone offsets of text mode
 timestamps were truncated to full hours

---
 gsmmodem/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/util.py b/gsmmodem/util.py
index 1008e5c..0afdb73 100644
--- a/gsmmodem/util.py
+++ b/gsmmodem/util.py
@@ -41,7 +41,7 @@ def parseTextModeTimeStr(timeStr):
     :rtype: datetime.datetime
     """
     msgTime = timeStr[:-3]
-    tzOffsetHours = int(int(timeStr[-3:]) * 0.25)
+    tzOffsetHours = int(timeStr[-3:]) * 0.25
     return datetime.strptime(msgTime, '%y/%m/%d,%H:%M:%S').replace(tzinfo=SimpleOffsetTzInfo(tzOffsetHours))
 
 def lineStartingWith(string, lines):
-- 
2.43.0


From 665645ffa5419f446bdee5de0f8fa6fb33f01d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:18 +0000
Subject: [PATCH 17/80] fix: GSM-7 code 0x5F is the section sign, not a
 backquote

---
 gsmmodem/pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 8e7b4a2..eeeaa2f 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -25,7 +25,7 @@ else: #pragma: no cover
     rawStrToByteArray = bytearray
 
 # Tables can be found at: http://en.wikipedia.org/wiki/GSM_03.38#GSM_7_bit_default_alphabet_and_extension_table_of_3GPP_TS_23.038_.2F_GSM_03.38
-GSM7_BASIC = ('@£$¥èéùìòÇ\nØø\rÅåΔ_ΦΓΛΩΠΨΣΘΞ\x1bÆæßÉ !\"#¤%&\'()*+,-./0123456789:;<=>?¡ABCDEFGHIJKLMNOPQRSTUVWXYZÄÖÑÜ`¿abcdefghijklmnopqrstuvwxyzäöñüà')
+GSM7_BASIC = ('@£$¥èéùìòÇ\nØø\rÅåΔ_ΦΓΛΩΠΨΣΘΞ\x1bÆæßÉ !\"#¤%&\'()*+,-./0123456789:;<=>?¡ABCDEFGHIJKLMNOPQRSTUVWXYZÄÖÑÜ§¿abcdefghijklmnopqrstuvwxyzäöñüà')
 GSM7_EXTENDED = {'\x0c': chr(0x0A), # form feed / page break
                  #CR2: chr(0x0D),
                  '^':  chr(0x14),
-- 
2.43.0


From f35fa4d6f1fddb9848d60b7660c14d9e8f1cdee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:14 +0000
Subject: [PATCH 18/80] fix: unpacking an empty sequence of septets raised
 TypeError

---
 gsmmodem/pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index eeeaa2f..66ef438 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -853,7 +853,7 @@ def unpackSeptets(septets, numberOfSeptets=None, prevOctet=None, shift=7):
         
         if i == numberOfSeptets:
             break
-    if shift == 7:
+    if shift == 7 and prevOctet != None:
         b = prevOctet >> (8 - shift)
         if b:
             # The final septet value still needs to be unpacked
-- 
2.43.0


From 9b64c40603144cc0b6576bb530e42bd174220592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:19 +0000
Subject: [PATCH 19/80] fix: lines merely containing OK or ERROR ended a
 response early

---
 gsmmodem/serial_comms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index ac445f5..2035366 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -18,7 +18,7 @@ class SerialComms(object):
     # End-of-line read terminator
     RX_EOL_SEQ = '\r\n'
     # End-of-response terminator
-    RESPONSE_TERM = re.compile(r'^OK|ERROR|(\+CM[ES] ERROR: \d+)|(COMMAND NOT SUPPORT)$')
+    RESPONSE_TERM = re.compile(r'^(OK|ERROR|(\+CM[ES] ERROR: \d+)|(COMMAND NOT SUPPORT))$')
     # Default timeout for serial port reads (in seconds)
     timeout = 1
         
-- 
2.43.0


From 3eb82d7ec3be75e08c29fc986b39753083a73f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:10 +0000
Subject: [PATCH 20/80] fix: read thread died or lost lines if a response
 arrived while its command timed out

---
 gsmmodem/serial_comms.py | 64 ++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 22 deletions(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index 2035366..2384ed7 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -38,6 +38,8 @@ class SerialComms(object):
         self._notification = [] # Buffer containing lines from an unsolicited notification from the modem
         # Reentrant lock for managing concurrent write access to the underlying serial port
         self._txLock = threading.RLock()
+        # Lock guarding the response state, which is shared between the read thread and the thread waiting for a response
+        self._responseLock = threading.Lock()
         
         self.notifyCallback = notifyCallbackFunc or self._placeholderCallback        
         self.fatalErrorCallback = fatalErrorCallbackFunc or self._placeholderCallback
@@ -57,17 +59,35 @@ class SerialComms(object):
         self.rxThread.join()
         self.serial.close()
 
-    def _handleLineRead(self, line, checkForResponseTerm=True):
+    def _handlePromptRead(self, rxBuffer):
+        """ Ends the current response if the data read so far ends with the terminator sequence it expects
+        
+        :return: True if the data was consumed as (the last) part of the response
+        """
+        with self._responseLock:
+            if not self._responseEvent or self._responseEvent.is_set():
+                return False
+            termSeq = self._expectResponseTermSeq
+            if not termSeq or rxBuffer[-len(termSeq):] != termSeq:
+                return False
+            self._response.append(''.join(rxBuffer))
+            self.log.debug('response: %s', self._response)
+            self._responseEvent.set()
+            return True
+
+    def _handleLineRead(self, line):
         #print 'sc.hlineread:',line
-        if self._responseEvent and not self._responseEvent.is_set():
-            # A response event has been set up (another thread is waiting for this response)
-            self._response.append(line)
-            if not checkForResponseTerm or self.RESPONSE_TERM.match(line):
-                # End of response reached; notify waiting thread
-                #print 'response:', self._response
-                self.log.debug('response: %s', self._response)
-                self._responseEvent.set()
-        else:            
+        with self._responseLock:
+            isResponse = self._responseEvent and not self._responseEvent.is_set()
+            if isResponse:
+                # A response event has been set up (another thread is waiting for this response)
+                self._response.append(line)
+                if self.RESPONSE_TERM.match(line):
+                    # End of response reached; notify waiting thread
+                    #print 'response:', self._response
+                    self.log.debug('response: %s', self._response)
+                    self._responseEvent.set()
+        if not isResponse:
             # Nothing was waiting for this - treat it as a notification
             self._notification.append(line)
             if self.serial.inWaiting() == 0:
@@ -101,11 +121,8 @@ class SerialComms(object):
                         if len(line) > 0:                          
                             #print 'calling handler'                      
                             self._handleLineRead(line)
-                    elif self._expectResponseTermSeq:
-                        if rxBuffer[-len(self._expectResponseTermSeq):] == self._expectResponseTermSeq:
-                            line = ''.join(rxBuffer) 
-                            rxBuffer = []
-                            self._handleLineRead(line, checkForResponseTerm=False)                                                
+                    elif self._expectResponseTermSeq and self._handlePromptRead(rxBuffer):
+                        rxBuffer = []
             #else:
                 #' <RX timeout>'
         except serial.SerialException as e:
@@ -120,18 +137,21 @@ class SerialComms(object):
     def write(self, data, waitForResponse=True, timeout=5, expectedResponseTermSeq=None):
         with self._txLock:            
             if waitForResponse:
-                if expectedResponseTermSeq:
-                    self._expectResponseTermSeq = list(expectedResponseTermSeq) 
-                self._response = []
-                self._responseEvent = threading.Event()                
+                with self._responseLock:
+                    if expectedResponseTermSeq:
+                        self._expectResponseTermSeq = list(expectedResponseTermSeq) 
+                    self._response = []
+                    self._responseEvent = threading.Event()                
                 self.serial.write(data)
-                if self._responseEvent.wait(timeout):
+                self._responseEvent.wait(timeout)
+                with self._responseLock:
+                    # The response may have been completed at the very last moment
+                    complete = self._responseEvent.is_set()
                     self._responseEvent = None
                     self._expectResponseTermSeq = False
+                if complete:
                     return self._response
                 else: # Response timed out
-                    self._responseEvent = None
-                    self._expectResponseTermSeq = False
                     if len(self._response) > 0:
                         # Add the partial response to the timeout exception
                         raise TimeoutException(self._response)
-- 
2.43.0


From dc557a140873225af3670dbd1b7a9489c168e5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:10 +0000
Subject: [PATCH 21/80] fix: a failed transmission left the link waiting for a
 response

---
 gsmmodem/serial_comms.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index 2384ed7..e111775 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -142,13 +142,15 @@ class SerialComms(object):
                         self._expectResponseTermSeq = list(expectedResponseTermSeq) 
                     self._response = []
                     self._responseEvent = threading.Event()                
-                self.serial.write(data)
-                self._responseEvent.wait(timeout)
-                with self._responseLock:
-                    # The response may have been completed at the very last moment
-                    complete = self._responseEvent.is_set()
-                    self._responseEvent = None
-                    self._expectResponseTermSeq = False
+                try:
+                    self.serial.write(data)
+                    self._responseEvent.wait(timeout)
+                finally:
+                    with self._responseLock:
+                        # The response may have been completed at the very last moment
+                        complete = self._responseEvent.is_set()
+                        self._responseEvent = None
+                        self._expectResponseTermSeq = False
                 if complete:
                     return self._response
                 else: # Response timed out
-- 
2.43.0


From eda174e5f3f0ed0b39e904caaa349ac6baabc44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:10 +0000
Subject: [PATCH 22/80] fix: notification lines followed by a response were
 held back until the next notification

---
 gsmmodem/serial_comms.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index e111775..ba079bc 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -87,15 +87,23 @@ class SerialComms(object):
                     #print 'response:', self._response
                     self.log.debug('response: %s', self._response)
                     self._responseEvent.set()
-        if not isResponse:
+        if isResponse:
+            # Lines read before this response are a notification of their own
+            self._notify()
+        else:
             # Nothing was waiting for this - treat it as a notification
             self._notification.append(line)
             if self.serial.inWaiting() == 0:
                 # No more chars on the way for this notification - notify higher-level callback
-                #print 'notification:', self._notification
-                self.log.debug('notification: %s', self._notification)
-                self.notifyCallback(self._notification)
-                self._notification = []                
+                self._notify()
+
+    def _notify(self):
+        """ Passes the notification lines read so far (if any) to the higher-level callback """
+        if self._notification:
+            #print 'notification:', self._notification
+            self.log.debug('notification: %s', self._notification)
+            notification, self._notification = self._notification, []
+            self.notifyCallback(notification)
 
     def _placeholderCallback(self, *args, **kwargs):
         """ Placeholder callback function (does nothing) """
-- 
2.43.0


From 83ab9ef29a516cf37bc98a7ef2795dedc7d531d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:10 +0000
Subject: [PATCH 23/80] fix: closing the connection from the fatal error
 callback raised RuntimeError

---
 gsmmodem/serial_comms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index ba079bc..568b629 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -56,7 +56,8 @@ class SerialComms(object):
     def close(self):
         """ Stops the read thread, waits for it to exit cleanly, then closes the underlying serial port """        
         self.alive = False
-        self.rxThread.join()
+        if threading.current_thread() is not self.rxThread: # e.g. if called from the fatal error callback
+            self.rxThread.join()
         self.serial.close()
 
     def _handlePromptRead(self, rxBuffer):
-- 
2.43.0


From ececf1cbc38e2d09b269b52bc469f1036d0486bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:11 +0000
Subject: [PATCH 24/80] fix: notification lines followed by a prompt were held
 back until the next notification

---
 gsmmodem/serial_comms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index 568b629..091cad5 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -132,6 +132,7 @@ class SerialComms(object):
                             self._handleLineRead(line)
                     elif self._expectResponseTermSeq and self._handlePromptRead(rxBuffer):
                         rxBuffer = []
+                        self._notify()
             #else:
                 #' <RX timeout>'
         except serial.SerialException as e:
-- 
2.43.0


From 2bafcd2a723787faf5088564e983431ef9e359a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:11 +0000
Subject: [PATCH 25/80] fix: a notification followed by a blank line was held
 back until the next notification

---
 gsmmodem/serial_comms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index 091cad5..85808dc 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -130,6 +130,9 @@ class SerialComms(object):
                         if len(line) > 0:                          
                             #print 'calling handler'                      
                             self._handleLineRead(line)
+                        elif self.serial.inWaiting() == 0:
+                            # Nothing but blank lines followed the last line of a notification
+                            self._notify()
                     elif self._expectResponseTermSeq and self._handlePromptRead(rxBuffer):
                         rxBuffer = []
                         self._notify()
-- 
2.43.0


From 3b6b6b3f764ffdfc5fd2b3c15697fba3208282df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:45 +0000
Subject: [PATCH 26/80] fix: a line consisting of a final result and a stray
 line feed ended a response

---
 gsmmodem/serial_comms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index 85808dc..b059570 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -18,7 +18,7 @@ class SerialComms(object):
     # End-of-line read terminator
     RX_EOL_SEQ = '\r\n'
     # End-of-response terminator
-    RESPONSE_TERM = re.compile(r'^(OK|ERROR|(\+CM[ES] ERROR: \d+)|(COMMAND NOT SUPPORT))$')
+    RESPONSE_TERM = re.compile(r'^(OK|ERROR|(\+CM[ES] ERROR: \d+)|(COMMAND NOT SUPPORT))\Z')
     # Default timeout for serial port reads (in seconds)
     timeout = 1
         
-- 
2.43.0


From 9e472e78b379be1e9eefcd699fca5b0468be855e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:41 +0000
Subject: [PATCH 27/80] fix: commands stayed slowed down after a busy phase
 that ended with an error or timeout

---
 gsmmodem/modem.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index e468f34..e7cac59 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -428,12 +428,15 @@ class GsmModem(SerialComms):
                             # Retry the command after waiting a bit
                             self.log.debug('Device/SIM busy error detected; self._writeWait adjusted to %fs', self._writeWait)
                             time.sleep(self._writeWait)
-                            result = self.write(data, waitForResponse, timeout, parseError, writeTerm, expectedResponseTermSeq)
-                            self.log.debug('self_writeWait set to 0.1 because of recovering from device busy (515) error')
-                            if errorCode == 515:
-                                self._writeWait = 0.1 # Set this to something sane for further commands (slow modem)
-                            else:
-                                self._writeWait = 0 # The modem was just waiting for the SIM card
+                            try:
+                                result = self.write(data, waitForResponse, timeout, parseError, writeTerm, expectedResponseTermSeq)
+                            finally:
+                                # The device is no longer busy, whether or not the command succeeded
+                                self.log.debug('self_writeWait set to 0.1 because of recovering from device busy (515) error')
+                                if errorCode == 515:
+                                    self._writeWait = 0.1 # Set this to something sane for further commands (slow modem)
+                                else:
+                                    self._writeWait = 0 # The modem was just waiting for the SIM card
                             return result
                         if errorType == 'CME':
                             raise CmeError(data, int(errorCode))
-- 
2.43.0


From 2cfeb79b5dec5dcf8b81d8e175511ef9052eb796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:36 +0000
Subject: [PATCH 28/80] fix: optional settings were lost when the modem was
 busy while connecting

---
 gsmmodem/modem.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index e7cac59..a3cb3a6 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -205,7 +205,7 @@ class GsmModem(SerialComms):
         enableWind = False
         if commands != None:
             if '^CVOICE' in commands:
-                self.write('AT^CVOICE=0', parseError=False) # Enable voice calls
+                self._writeOptional('AT^CVOICE=0') # Enable voice calls
             if '+VTS' in commands: # Check for DTMF sending support
                 Call.dtmfSupport = True
             elif '^DTMF' in commands:
@@ -213,7 +213,7 @@ class GsmModem(SerialComms):
                 callUpdateTableHint = 1 # Huawei
             if '^USSDMODE' in commands:
                 # Enable Huawei text-mode USSD
-                self.write('AT^USSDMODE=0', parseError=False)
+                self._writeOptional('AT^USSDMODE=0')
             if '+WIND' in commands:
                 callUpdateTableHint = 2 # Wavecom
                 enableWind = True
@@ -287,7 +287,7 @@ class GsmModem(SerialComms):
             self._waitForAtdResponse = True # Most modems return OK immediately after issuing ATD
 
         # General meta-information setup
-        self.write('AT+COPS=3,0', parseError=False) # Use long alphanumeric name format
+        self._writeOptional('AT+COPS=3,0') # Use long alphanumeric name format
                 
         # SMS setup
         self.write('AT+CMGF={0}'.format(1 if self._smsTextMode else 0)) # Switch to text or PDU mode for SMS messages
@@ -300,7 +300,7 @@ class GsmModem(SerialComms):
         # Some modems delete the SMSC number when setting text-mode SMS parameters; preserve it if needed
         if currentSmscNumber != None:
             self._smscNumber = None # clear cache
-        self.write('AT+CSMP=49,167,0,0', parseError=False) # Enable delivery reports
+        self._writeOptional('AT+CSMP=49,167,0,0') # Enable delivery reports
         # ...check SMSC again to ensure it did not change
         if currentSmscNumber != None and self.smsc != currentSmscNumber:
             self.smsc = currentSmscNumber
@@ -361,8 +361,15 @@ class GsmModem(SerialComms):
                 self._extendedIncomingCallIndication = True        
 
         # Call control setup
-        self.write('AT+CVHU=0', parseError=False) # Enable call hang-up with ATH command (ignore if command not supported)
+        self._writeOptional('AT+CVHU=0') # Enable call hang-up with ATH command (ignore if command not supported)
     
+    def _writeOptional(self, data):
+        """ Sends a command the modem is free to reject (it is still retried while the modem is busy) """
+        try:
+            self.write(data)
+        except CommandError as error:
+            self.log.debug('Optional command rejected by modem: %s', error)
+
     def _unlockSim(self, pin):
         """ Unlocks the SIM card using the specified PIN (if necessary, else does nothing) """
         # Unlock the SIM card if needed
-- 
2.43.0


From 29aad50da05778a0d8d2f552041d3e0dbf8ca603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:36 +0000
Subject: [PATCH 29/80] fix: connecting failed if the +CFUN reply had a second
 parameter or was missing

---
 gsmmodem/modem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index a3cb3a6..5e1bb3b 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -187,8 +187,8 @@ class GsmModem(SerialComms):
             pinCheckComplete = False
         self.write('ATE0') # echo off
         try:
-            cfun = int(lineStartingWith('+CFUN:', self.write('AT+CFUN?'))[7:]) # example response: +CFUN: 1
-            if cfun != 1:
+            cfunMatch = lineMatching(r'^\+CFUN:\s*(\d+)', self.write('AT+CFUN?')) # example response: +CFUN: 1
+            if cfunMatch == None or int(cfunMatch.group(1)) != 1:
                 self.write('AT+CFUN=1')
         except CommandError:
             pass # just ignore if the +CFUN command isn't supported
-- 
2.43.0


From adcc09a5035e849f53e008b0ad9e802b9519a340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:36 +0000
Subject: [PATCH 30/80] fix: a PIN was demanded or sent although the modem
 reported +CPIN:READY without a blank

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 5e1bb3b..fc89d58 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -385,7 +385,7 @@ class GsmModem(SerialComms):
             else:
                 # Nothing read (real timeout)
                 raise timeout
-        if cpinResponse != '+CPIN: READY':
+        if cpinResponse == None or cpinResponse[6:].strip() != 'READY':
             if pin != None:
                 self.write('AT+CPIN="{0}"'.format(pin))
             else:
-- 
2.43.0


From b455d4e6c972df88cac43fc98cd29039247f7fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:36 +0000
Subject: [PATCH 31/80] fix: connecting failed if +WIND notifications could be
 queried but not enabled

---
 gsmmodem/modem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index fc89d58..53eaf35 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -226,13 +226,13 @@ class GsmModem(SerialComms):
         if enableWind:
             try:
                 wind = lineStartingWith('+WIND:', self.write('AT+WIND?')) # Check current WIND value; example response: +WIND: 63
+                # Enable notifications for call setup, hangup, etc
+                if wind == None or wind[6:].strip() != '50':
+                    self.write('AT+WIND=50')
             except CommandError:
                 # Modem does not support +WIND notifications. See if we can detect other known call update notifications
-                pass
+                callUpdateTableHint = 0
             else:
-                # Enable notifications for call setup, hangup, etc
-                if int(wind[7:]) != 50:
-                    self.write('AT+WIND=50')
                 callUpdateTableHint = 2 # Wavecom
 
         # Attempt to identify modem type directly (if not already) - for outgoing call status updates
-- 
2.43.0


From 1b52591fb4f5a5bce4173b3c76a939bfa3309629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:36 +0000
Subject: [PATCH 32/80] fix: connecting failed if the modem does not report its
 manufacturer

---
 gsmmodem/modem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 53eaf35..f3237d1 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -237,7 +237,11 @@ class GsmModem(SerialComms):
 
         # Attempt to identify modem type directly (if not already) - for outgoing call status updates
         if callUpdateTableHint == 0:
-            if self.manufacturer.lower() == 'huawei':
+            try:
+                manufacturer = self.manufacturer.lower()
+            except CommandError:
+                manufacturer = None # Not reported by this modem
+            if manufacturer == 'huawei':
                 callUpdateTableHint = 1 # huawei
             else:
                 # See if this is a ZTE modem that has not yet been identified based on supported commands
-- 
2.43.0


From 9b0da1aaec00023a49d824ae285d5a714c38324e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:36 +0000
Subject: [PATCH 33/80] fix: blanks in the list of supported commands hid those
 commands

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index f3237d1..6f955b5 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -521,7 +521,7 @@ class GsmModem(SerialComms):
                 commands = response[0]
                 if commands.startswith('+CLAC'):
                     commands = commands[6:] # remove the +CLAC: prefix before splitting
-                return commands.split(',')
+                return [cmd.strip() for cmd in commands.split(',')]
             elif len(response) > 2: # Multi-line response
                 return [cmd.strip() for cmd in response[:-1]]
             else:
-- 
2.43.0


From 9ebf2c9a6d3707353cbb8d0804e8094ccfb58276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:17 +0000
Subject: [PATCH 34/80] fix: connecting failed if the modem does not report its
 service centre number

---
 gsmmodem/modem.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 6f955b5..fe5aba7 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -300,14 +300,22 @@ class GsmModem(SerialComms):
             self.write('AT+CSCA="{0}"'.format(self._smscNumber)) # Set default SMSC number
             currentSmscNumber = self._smscNumber
         else:
-            currentSmscNumber = self.smsc
+            try:
+                currentSmscNumber = self.smsc
+            except CommandError:
+                currentSmscNumber = None # Not reported by this modem
         # Some modems delete the SMSC number when setting text-mode SMS parameters; preserve it if needed
         if currentSmscNumber != None:
             self._smscNumber = None # clear cache
         self._writeOptional('AT+CSMP=49,167,0,0') # Enable delivery reports
         # ...check SMSC again to ensure it did not change
-        if currentSmscNumber != None and self.smsc != currentSmscNumber:
-            self.smsc = currentSmscNumber
+        if currentSmscNumber != None:
+            try:
+                smscUnchanged = self.smsc == currentSmscNumber
+            except CommandError:
+                smscUnchanged = False
+            if not smscUnchanged:
+                self.smsc = currentSmscNumber
 
         # Set message storage, but first check what the modem supports - example response: +CPMS: (("SM","BM","SR"),("SM"))
         try:
-- 
2.43.0


From 32b9c1cdf5c8987eec28c98b122973edf33a9788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:17 +0000
Subject: [PATCH 35/80] fix: connecting failed on unusual lists of message
 storages or if selecting one was rejected

---
 gsmmodem/modem.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index fe5aba7..6782e68 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -325,10 +325,10 @@ class GsmModem(SerialComms):
             self._smsReadSupported = False
             self.log.warning('SMS preferred message storage query not supported by modem. SMS reading unavailable.')
         else:
-            cpmsSupport = cpmsLine.split(' ', 1)[1].split('),(')
+            cpmsSupport = (cpmsLine or '')[6:].split('),(')
             # Do a sanity check on the memory types returned - Nokia S60 devices return empty strings, for example
             for memItem in cpmsSupport:
-                if len(memItem) == 0:
+                if '"' not in memItem:
                     # No support for reading stored SMS via AT commands - probably a Nokia S60
                     self._smsReadSupported = False
                     self.log.warning('Invalid SMS message storage support returned by modem. SMS reading unavailable. Response was: "%s"', cpmsLine)
@@ -344,7 +344,16 @@ class GsmModem(SerialComms):
                                 self._smsMemReadDelete = memType
                             cpmsItems[i] = memType
                             break
-                self.write('AT+CPMS={0}'.format(','.join(cpmsItems))) # Set message storage
+                    else:
+                        # None of the preferred types; use the first one offered
+                        cpmsItems[i] = '"{0}"'.format(cpmsSupport[i].split('"')[1])
+                        if i == 0:
+                            self._smsMemReadDelete = cpmsItems[i]
+                try:
+                    self.write('AT+CPMS={0}'.format(','.join(cpmsItems))) # Set message storage
+                except CommandError as cpmsError:
+                    self._smsMemReadDelete = None
+                    self.log.warning('Unable to set SMS message storage. Error: {0}'.format(cpmsError))
             del cpmsSupport
             del cpmsLine
         
-- 
2.43.0


From 16b9241711365d497df2e4cebaf0191f250017c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:15 +0000
Subject: [PATCH 36/80] fix: a message body could be sent without a prompt,
 apart from its announcement or again after a busy reply

---
 gsmmodem/modem.py | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 6782e68..4e37572 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -449,7 +449,7 @@ class GsmModem(SerialComms):
                     if cmErrorMatch:
                         errorType = cmErrorMatch.group(1)
                         errorCode = int(cmErrorMatch.group(2))
-                        if errorCode == 515 or errorCode == 14:
+                        if (errorCode == 515 or errorCode == 14) and writeTerm != chr(26): # message bodies need a new prompt first
                             # 515 means: "Please wait, init or command processing in progress."
                             # 14 means "SIM busy"
                             self._writeWait += 0.2 # Increase waiting period temporarily
@@ -671,16 +671,11 @@ class GsmModem(SerialComms):
         :raise TimeoutException: if the operation times out
         """
         if self._smsTextMode:
-            self.write('AT+CMGS="{0}"'.format(destination), timeout=3, expectedResponseTermSeq='> ')
-            result = lineStartingWith('+CMGS:', self.write(text, timeout=15, writeTerm=chr(26)))
+            reference = self._sendSmsPart('AT+CMGS="{0}"'.format(destination), text)
         else:
             pdus = encodeSmsSubmitPdu(destination, text, reference=self._smsRef, sendFlash=sendFlash)
             for pdu in pdus:
-                self.write('AT+CMGS={0}'.format(pdu.tpduLength), timeout=3, expectedResponseTermSeq='> ')
-                result = lineStartingWith('+CMGS:', self.write(str(pdu), timeout=15, writeTerm=chr(26))) # example: +CMGS: xx
-        if result == None:
-            raise CommandError('Modem did not respond with +CMGS response')
-        reference = int(result[7:])
+                reference = self._sendSmsPart('AT+CMGS={0}'.format(pdu.tpduLength), str(pdu))
         self._smsRef = reference + 1
         if self._smsRef > 255:
             self._smsRef = 0
@@ -696,6 +691,31 @@ class GsmModem(SerialComms):
                 raise TimeoutException()
         return sms
 
+    def _sendSmsPart(self, command, body):
+        """ Announces a message (part) to the modem, and sends its body once the modem prompts for it
+
+        :return: the message reference reported by the modem
+        :rtype: int
+        """
+        with self._txLock: # nothing else may be transmitted until the modem has acknowledged the message
+            busyWait = self._writeWait
+            while True:
+                if not self.write(command, timeout=3, expectedResponseTermSeq='> ')[-1].endswith('> '):
+                    raise CommandError(command) # The modem is not waiting for the message
+                try:
+                    result = lineMatching(r'^\+CMGS:\s*(\d+)', self.write(body, timeout=15, writeTerm=chr(26))) # example: +CMGS: xx
+                except (CmeError, CmsError) as e:
+                    if e.code != 515 and e.code != 14:
+                        raise
+                    # Device/SIM busy; announce the message again after a while
+                    busyWait += 0.2
+                    time.sleep(busyWait)
+                else:
+                    break
+        if result == None:
+            raise CommandError('Modem did not respond with +CMGS response')
+        return int(result.group(1))
+
     def sendUssd(self, ussdString, responseTimeout=15):
         """ Starts a USSD session by dialing the the specified USSD string, or \
         sends the specified string in the existing USSD session (if any)
-- 
2.43.0


From 48b74a47aaef28225f27b64eab4efff537aef770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:02 +0000
Subject: [PATCH 37/80] fix: a delivery report was missed by its sender if it
 arrived early, and woke up senders waiting for other reports

---
 gsmmodem/modem.py | 52 ++++++++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 4e37572..658aa20 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -70,6 +70,7 @@ class SentSms(Sms):
     def __init__(self, number, text, reference, smsc=None):
         super(SentSms, self).__init__(number, text, smsc)
         self.report = None # Status report for this SMS (StatusReport object)
+        self._reportEvent = None # threading.Event; set if a thread is waiting for the status report
         self.reference = reference
         
     @property
@@ -145,7 +146,7 @@ class GsmModem(SerialComms):
         self.sentSms = weakref.WeakValueDictionary()
         self._ussdSessionEvent = None # threading.Event
         self._ussdResponse = None # gsmmodem.modem.Ussd
-        self._smsStatusReportEvent = None # threading.Event
+        self._smsStatusReportLock = threading.Lock() # Guards the pairing of status reports with threads waiting for them
         self._dialEvent = None # threading.Event
         self._dialResponse = None # gsmmodem.modem.Call
         self._waitForAtdResponse = True # Flag that controls if we should wait for an immediate response to ATD, or not
@@ -671,24 +672,29 @@ class GsmModem(SerialComms):
         :raise TimeoutException: if the operation times out
         """
         if self._smsTextMode:
-            reference = self._sendSmsPart('AT+CMGS="{0}"'.format(destination), text)
+            parts = [('AT+CMGS="{0}"'.format(destination), text)]
         else:
             pdus = encodeSmsSubmitPdu(destination, text, reference=self._smsRef, sendFlash=sendFlash)
-            for pdu in pdus:
-                reference = self._sendSmsPart('AT+CMGS={0}'.format(pdu.tpduLength), str(pdu))
-        self._smsRef = reference + 1
-        if self._smsRef > 255:
-            self._smsRef = 0
-        sms = SentSms(destination, text, reference)
-        # Add a weak-referenced entry for this SMS (allows us to update the SMS state if a status report is received)
-        self.sentSms[reference] = sms
+            parts = [('AT+CMGS={0}'.format(pdu.tpduLength), str(pdu)) for pdu in pdus]
+        for command, body in parts[:-1]:
+            self._sendSmsPart(command, body)
+        reportEvent = threading.Event() if waitForDeliveryReport else None
+        with self._txLock: # no status report can be read before the message it belongs to has been registered
+            reference = self._sendSmsPart(*parts[-1])
+            self._smsRef = reference + 1
+            if self._smsRef > 255:
+                self._smsRef = 0
+            sms = SentSms(destination, text, reference)
+            sms._reportEvent = reportEvent
+            # Add a weak-referenced entry for this SMS (allows us to update the SMS state if a status report is received)
+            self.sentSms[reference] = sms
         if waitForDeliveryReport:
-            self._smsStatusReportEvent = threading.Event()
-            if self._smsStatusReportEvent.wait(deliveryTimeout):
-                self._smsStatusReportEvent = None
-            else: # Response timed out
-                self._smsStatusReportEvent = None
-                raise TimeoutException()
+            if not reportEvent.wait(deliveryTimeout): # Response timed out
+                with self._smsStatusReportLock:
+                    timedOut = sms._reportEvent != None
+                    sms._reportEvent = None
+                if timedOut:
+                    raise TimeoutException()
         return sms
 
     def _sendSmsPart(self, command, body):
@@ -1059,12 +1065,16 @@ class GsmModem(SerialComms):
             msgIndex = cdsiMatch.group(2)
             report = self.readStoredSms(msgIndex, msgMemory)
             self.deleteStoredSms(msgIndex)
-            # Update sent SMS status if possible            
-            if report.reference in self.sentSms:                
-                self.sentSms[report.reference].report = report
-            if self._smsStatusReportEvent:                
+            reportEvent = None
+            with self._smsStatusReportLock:
+                # Update sent SMS status if possible
+                sms = self.sentSms.get(report.reference)
+                if sms != None:
+                    sms.report = report
+                    reportEvent, sms._reportEvent = sms._reportEvent, None
+            if reportEvent:
                 # A sendSms() call is waiting for this response - notify waiting thread
-                self._smsStatusReportEvent.set()
+                reportEvent.set()
             else:
                 # Nothing is waiting for this report directly - use callback
                 self.smsStatusReportCallback(report)
-- 
2.43.0


From 7e7019444fe7980817bc19e5e49d800920f8c97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:02 +0000
Subject: [PATCH 38/80] fix: a stored message could be read from or deleted in
 another thread's message storage

---
 gsmmodem/modem.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 658aa20..b67f921 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1053,7 +1053,7 @@ class GsmModem(SerialComms):
             msgMemory = cmtiMatch.group(1)
             msgIndex = cmtiMatch.group(2)
             sms = self.readStoredSms(msgIndex, msgMemory)
-            self.deleteStoredSms(msgIndex)
+            self.deleteStoredSms(msgIndex, msgMemory)
             self.smsReceivedCallback(sms)
     
     def _handleSmsStatusReport(self, notificationLine):
@@ -1064,7 +1064,7 @@ class GsmModem(SerialComms):
             msgMemory = cdsiMatch.group(1)
             msgIndex = cdsiMatch.group(2)
             report = self.readStoredSms(msgIndex, msgMemory)
-            self.deleteStoredSms(msgIndex)
+            self.deleteStoredSms(msgIndex, msgMemory)
             reportEvent = None
             with self._smsStatusReportLock:
                 # Update sent SMS status if possible
@@ -1093,8 +1093,9 @@ class GsmModem(SerialComms):
         :rtype: subclass of gsmmodem.modem.Sms (either ReceivedSms or StatusReport)
         """
         # Switch to the correct memory type if required
-        self._setSmsMemory(readDelete=memory)
-        msgData = self.write('AT+CMGR={0}'.format(index))
+        with self._txLock:
+            self._setSmsMemory(readDelete=memory)
+            msgData = self.write('AT+CMGR={0}'.format(index))
         # Parse meta information
         if self._smsTextMode:
             cmgrMatch = self.CMGR_SM_DELIVER_REGEX_TEXT.match(msgData[0])
@@ -1143,8 +1144,9 @@ class GsmModem(SerialComms):
         
         :raise CommandError: if unable to delete the stored message
         """
-        self._setSmsMemory(readDelete=memory)
-        self.write('AT+CMGD={0},0'.format(index))
+        with self._txLock:
+            self._setSmsMemory(readDelete=memory)
+            self.write('AT+CMGD={0},0'.format(index))
     
     def deleteMultipleStoredSms(self, delFlag=4, memory=None):
         """ Deletes all SMS messages that have the specified read status.
@@ -1167,8 +1169,9 @@ class GsmModem(SerialComms):
         :raise CommandError: if unable to delete the stored messages
         """
         if 0 < delFlag <= 4:
-            self._setSmsMemory(readDelete=memory)
-            self.write('AT+CMGD=1,{0}'.format(delFlag))
+            with self._txLock:
+                self._setSmsMemory(readDelete=memory)
+                self.write('AT+CMGD=1,{0}'.format(delFlag))
         else:
             raise ValueError('"delFlag" must be in range [1,4]')
     
-- 
2.43.0


From b49dbdf121d77333754eaa7313d92c72ed271297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:06 +0000
Subject: [PATCH 39/80] fix: only the first of several notifications arriving
 together was handled

---
 gsmmodem/modem.py | 83 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 53 insertions(+), 30 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index b67f921..6a60b29 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -916,37 +916,60 @@ class GsmModem(SerialComms):
         
         :param lines The lines that were read
         """
-        for line in lines:
-            if 'RING' in line:
-                # Incoming call (or existing call is ringing)
-                self._handleIncomingCall(lines)
-                return
-            elif line.startswith('+CMTI'):
-                # New SMS message indication
-                self._handleSmsReceived(line)
-                return
-            elif line.startswith('+CUSD'):
-                # USSD notification - either a response or a MT-USSD ("push USSD") message
-                self._handleUssd(lines)
-                return
-            elif line.startswith('+CDSI'):
-                # SMS status report
-                self._handleSmsStatusReport(line)
-                return
+        lines = list(lines)
+        while len(lines) > 0:
+            line = lines.pop(0)
+            try:
+                if not self._handleNotification(line, lines):
+                    self.log.debug('Unhandled unsolicited modem notification: %s', line)
+            except Exception:
+                # Do not let this affect the handling of the other notifications
+                self.log.exception('Error while handling modem notification: %s', line)
+
+    def _handleNotification(self, line, lines):
+        """ Handles a single notification
+
+        :param line: The first line of the notification
+        :param lines: The lines following it; those that belong to the notification as well are removed
+
+        :return: True if the notification was handled, False if it is unknown
+        """
+        if 'RING' in line:
+            # Incoming call (or existing call is ringing)
+            self._handleIncomingCall(line, lines)
+        elif line.startswith('+CMTI'):
+            # New SMS message indication
+            self._handleSmsReceived(line)
+        elif line.startswith('+CUSD'):
+            # USSD notification - either a response or a MT-USSD ("push USSD") message
+            self._handleUssd([line] + self._takeUssdLines(line, lines))
+        elif line.startswith('+CDSI'):
+            # SMS status report
+            self._handleSmsStatusReport(line)
+        else:
+            # Check for call status updates
+            for updateRegex, handlerFunc in self._callStatusUpdates:
+                match = updateRegex.match(line)
+                if match:
+                    # Handle the update
+                    handlerFunc(match)
+                    break
             else:
-                # Check for call status updates            
-                for updateRegex, handlerFunc in self._callStatusUpdates:
-                    match = updateRegex.match(line)
-                    if match:
-                        # Handle the update
-                        handlerFunc(match)
-                        return
-        # If this is reached, the notification wasn't handled
-        self.log.debug('Unhandled unsolicited modem notification: %s', lines)    
-    
-    def _handleIncomingCall(self, lines):
+                return False
+        return True
+
+    def _takeUssdLines(self, line, lines):
+        """ Removes and returns those of the lines following the specified +CUSD line that belong to the same response:
+        the rest of its message, and further +CUSD lines """
+        taken = []
+        while len(lines) > 0 and (lines[0].startswith('+CUSD') or '"' in line and not self.CUSD_REGEX.match(line)):
+            nextLine = lines.pop(0)
+            taken.append(nextLine)
+            line = nextLine if nextLine.startswith('+CUSD') else '\r\n'.join((line, nextLine))
+        return taken
+
+    def _handleIncomingCall(self, ringLine, lines):
         self.log.debug('Handling incoming call')
-        ringLine = lines.pop(0)
         if self._extendedIncomingCallIndication:
             try:
                 callType = ringLine.split(' ', 1)[1]
@@ -962,7 +985,7 @@ class GsmModem(SerialComms):
                     self._extendedIncomingCallIndication = False
         else:
             callType = None
-        if self._callingLineIdentification and len(lines) > 0:
+        if self._callingLineIdentification and len(lines) > 0 and lines[0].startswith('+CLIP'):
             clipLine = lines.pop(0)
             clipMatch = self.CLIP_REGEX.match(clipLine)
             if clipMatch:
-- 
2.43.0


From 335e80317b331ec8666c4a3c19e4a795f7e67b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:51 +0000
Subject: [PATCH 40/80] fix: a received message was lost if it could not be
 deleted, and another one deleted if it took its place

---
 gsmmodem/modem.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 6a60b29..61f00cc 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -6,7 +6,7 @@ import sys, re, logging, weakref, time, threading, abc, codecs
 from datetime import datetime
 
 from .serial_comms import SerialComms
-from .exceptions import CommandError, InvalidStateException, CmeError, CmsError, InterruptedException, TimeoutException, PinRequiredError, IncorrectPinError, SmscNumberUnknownError
+from .exceptions import GsmModemException, CommandError, InvalidStateException, CmeError, CmsError, InterruptedException, TimeoutException, PinRequiredError, IncorrectPinError, SmscNumberUnknownError
 from .pdu import encodeSmsSubmitPdu, decodeSmsPdu
 from .util import SimpleOffsetTzInfo, lineStartingWith, allLinesMatchingPattern, parseTextModeTimeStr
 
@@ -1075,8 +1075,7 @@ class GsmModem(SerialComms):
         if cmtiMatch:
             msgMemory = cmtiMatch.group(1)
             msgIndex = cmtiMatch.group(2)
-            sms = self.readStoredSms(msgIndex, msgMemory)
-            self.deleteStoredSms(msgIndex, msgMemory)
+            sms = self._takeStoredSms(msgIndex, msgMemory)
             self.smsReceivedCallback(sms)
     
     def _handleSmsStatusReport(self, notificationLine):
@@ -1086,8 +1085,7 @@ class GsmModem(SerialComms):
         if cdsiMatch:
             msgMemory = cdsiMatch.group(1)
             msgIndex = cdsiMatch.group(2)
-            report = self.readStoredSms(msgIndex, msgMemory)
-            self.deleteStoredSms(msgIndex, msgMemory)
+            report = self._takeStoredSms(msgIndex, msgMemory)
             reportEvent = None
             with self._smsStatusReportLock:
                 # Update sent SMS status if possible
@@ -1102,6 +1100,16 @@ class GsmModem(SerialComms):
                 # Nothing is waiting for this report directly - use callback
                 self.smsStatusReportCallback(report)
     
+    def _takeStoredSms(self, index, memory):
+        """ Reads, deletes and returns the SMS message at the specified index (returns it as well if it can't be deleted) """
+        with self._txLock: # nobody else may have the message replaced by another one before it is deleted
+            sms = self.readStoredSms(index, memory)
+            try:
+                self.deleteStoredSms(index, memory)
+            except GsmModemException as e:
+                self.log.warning('Unable to delete message %s in %s: %s', index, memory, e)
+        return sms
+
     def readStoredSms(self, index, memory=None):
         """ Reads and returns the SMS message at the specified index
         
-- 
2.43.0


From c42a2a787ba3a57044b721ecb62e2bc2b9b08224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:51 +0000
Subject: [PATCH 41/80] fix: an unusual entry in a text-mode listing spoilt the
 message before it, and empty messages were left out

---
 gsmmodem/modem.py | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 61f00cc..7332b06 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -837,6 +837,7 @@ class GsmModem(SerialComms):
         messages = []
         delMessages = set()
         if self._smsTextMode:
+            entryRegex = re.compile(r'^\+CMGL:\s*\d+,')
             cmglRegex= re.compile(r'^\+CMGL: (\d+),"([^"]+)","([^"]+)",[^,]*,"([^"]+)"$')
             for key, val in dictItemsIter(Sms.TEXT_MODE_STATUS_MAP):
                 if status == val:
@@ -845,27 +846,24 @@ class GsmModem(SerialComms):
             else:
                 raise ValueError('Invalid status value: {0}'.format(status))
             result = self.write('AT+CMGL="{0}"'.format(statusStr))
-            msgLines = []
-            msgIndex = msgStatus = number = msgTime = None
-            for line in result:
-                cmglMatch = cmglRegex.match(line)                
-                if cmglMatch:
-                    # New message; save old one if applicable
-                    if msgIndex != None and len(msgLines) > 0:
-                        msgText = '\n'.join(msgLines)
-                        msgLines = []
-                        messages.append(ReceivedSms(self, Sms.TEXT_MODE_STATUS_MAP[msgStatus], number, parseTextModeTimeStr(msgTime), msgText))
-                        delMessages.add(int(msgIndex))
-                    msgIndex, msgStatus, number, msgTime = cmglMatch.groups()
+            sms = None
+            for line in result[:-1]:
+                if entryRegex.match(line):
+                    # New message
+                    sms = None
                     msgLines = []
-                else:
-                    if line != 'OK':
-                        msgLines.append(line)
-            if msgIndex != None and len(msgLines) > 0:
-                msgText = '\n'.join(msgLines)
-                msgLines = []
-                messages.append(ReceivedSms(self, Sms.TEXT_MODE_STATUS_MAP[msgStatus], number, parseTextModeTimeStr(msgTime), msgText))
-                delMessages.add(int(msgIndex))
+                    cmglMatch = cmglRegex.match(line)
+                    try:
+                        msgIndex, msgStatus, number, msgTime = cmglMatch.groups()
+                        sms = ReceivedSms(self, Sms.TEXT_MODE_STATUS_MAP[msgStatus], number, parseTextModeTimeStr(msgTime), '')
+                    except (AttributeError, KeyError, ValueError):
+                        self.log.debug('Discarding message from +CMGL response: %s', line)
+                    else:
+                        messages.append(sms)
+                        delMessages.add(int(msgIndex))
+                elif sms != None:
+                    msgLines.append(line)
+                    sms.text = '\n'.join(msgLines)
         else:
             cmglRegex = re.compile(r'^\+CMGL:\s*(\d+),\s*(\d+),.*$')
             readPdu = False
-- 
2.43.0


From 8671ef0c47da70404cd9a4003c9c5866879a168d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:51 +0000
Subject: [PATCH 42/80] fix: an undecodable or outgoing message in a listing
 spoilt the messages after it or the whole listing

---
 gsmmodem/modem.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 7332b06..3f276e0 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -869,13 +869,12 @@ class GsmModem(SerialComms):
             readPdu = False
             result = self.write('AT+CMGL={0}'.format(status))
             for line in result:
-                if not readPdu:
-                    cmglMatch = cmglRegex.match(line)
-                    if cmglMatch:
-                        msgIndex = int(cmglMatch.group(1))
-                        msgStat = int(cmglMatch.group(2))
-                        readPdu = True
-                else:
+                cmglMatch = cmglRegex.match(line)
+                if cmglMatch:
+                    msgIndex = int(cmglMatch.group(1))
+                    msgStat = int(cmglMatch.group(2))
+                    readPdu = True
+                elif readPdu:
                     try:
                         smsDict = decodeSmsPdu(line)
                     except EncodingError:
@@ -886,7 +885,9 @@ class GsmModem(SerialComms):
                         elif smsDict['type'] == 'SMS-STATUS-REPORT':
                             sms = StatusReport(self, int(msgStat), smsDict['reference'], smsDict['number'], smsDict['time'], smsDict['discharge'], smsDict['status'])
                         else:
-                            raise CommandError('Invalid PDU type for readStoredSms(): {0}'.format(smsDict['type']))
+                            self.log.debug('Discarding message of type %s from +CMGL response', smsDict['type'])
+                            readPdu = False
+                            continue
                         messages.append(sms)
                         delMessages.add(msgIndex)
                         readPdu = False
-- 
2.43.0


From 1823c254fe939575b91e8944f8750da729ba00bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:51 +0000
Subject: [PATCH 43/80] fix: after a timeout while selecting a message storage,
 messages were accessed in the wrong one

---
 gsmmodem/modem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 3f276e0..74dc668 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -571,6 +571,7 @@ class GsmModem(SerialComms):
             self._smsMemReadDelete = readDel
             self._smsMemWrite = write
         elif readDelete != None and readDelete != self._smsMemReadDelete:
+            self._smsMemReadDelete = None # Not known until the modem has acknowledged the change
             self.write('AT+CPMS="{0}"'.format(readDelete))
             self._smsMemReadDelete = readDelete
 
-- 
2.43.0


From 6b2c64f5a5d267755de4aedcae6a851898d5f28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:51 +0000
Subject: [PATCH 44/80] fix: messages in another storage or other messages
 could be listed or deleted if several threads use message storages

---
 gsmmodem/modem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 74dc668..713fe39 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -834,6 +834,11 @@ class GsmModem(SerialComms):
         :return: A list of Sms objects containing the messages read
         :rtype: list
         """
+        with self._txLock: # no other thread may select another storage or replace listed messages meanwhile
+            return self._listStoredSms(status, memory, delete)
+
+    def _listStoredSms(self, status, memory, delete):
+        """ Implementation of listStoredSms() """
         self._setSmsMemory(readDelete=memory)
         messages = []
         delMessages = set()
-- 
2.43.0


From 23c415e16688cf3214210e95f849eda103a52adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 45/80] fix: changes of call and USSD state announced by the
 modem were applied in any order

---
 gsmmodem/modem.py | 111 ++++++++++++++++++++++++++++++----------------
 1 file changed, 72 insertions(+), 39 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 713fe39..4c35b08 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -146,6 +146,7 @@ class GsmModem(SerialComms):
         self.sentSms = weakref.WeakValueDictionary()
         self._ussdSessionEvent = None # threading.Event
         self._ussdResponse = None # gsmmodem.modem.Ussd
+        self._stateLock = threading.RLock() # Guards the state of calls and USSD sessions; no commands are sent and no callbacks called while it is held
         self._smsStatusReportLock = threading.Lock() # Guards the pairing of status reports with threads waiting for them
         self._dialEvent = None # threading.Event
         self._dialResponse = None # gsmmodem.modem.Call
@@ -909,27 +910,41 @@ class GsmModem(SerialComms):
     def _handleModemNotification(self, lines):
         """ Handler for unsolicited notifications from the modem
         
-        This method simply spawns a separate thread to handle the actual notification
+        This method updates the state of calls and USSD sessions (in the order in which the modem announces the changes)
+        and spawns a separate thread to do whatever else the notifications require
         (in order to release the read thread so that the handlers are able to write back to the modem, etc)
          
-        :param lines The lines that were read
-        """
-        threading.Thread(target=self.__threadedHandleModemNotification, kwargs={'lines': lines}).start()
-    
-    def __threadedHandleModemNotification(self, lines):
-        """ Implementation of _handleModemNotification() to be run in a separate thread
-        
         :param lines The lines that were read
         """
         lines = list(lines)
+        actions = []
         while len(lines) > 0:
             line = lines.pop(0)
             try:
-                if not self._handleNotification(line, lines):
+                with self._stateLock:
+                    newActions = self._handleNotification(line, lines)
+                if newActions == None:
                     self.log.debug('Unhandled unsolicited modem notification: %s', line)
+                else:
+                    actions.extend(newActions)
             except Exception:
                 # Do not let this affect the handling of the other notifications
                 self.log.exception('Error while handling modem notification: %s', line)
+        self._startActions(actions)
+
+    def _startActions(self, actions):
+        """ Spawns a separate thread calling the specified functions (if any) """
+        if len(actions) > 0:
+            threading.Thread(target=self.__threadedRunActions, kwargs={'actions': actions}).start()
+    
+    def __threadedRunActions(self, actions):
+        """ Implementation of _startActions() to be run in a separate thread """
+        for action in actions:
+            try:
+                action()
+            except Exception:
+                # Do not let this affect the handling of the other notifications
+                self.log.exception('Error while handling modem notification')
 
     def _handleNotification(self, line, lines):
         """ Handles a single notification
@@ -937,31 +952,29 @@ class GsmModem(SerialComms):
         :param line: The first line of the notification
         :param lines: The lines following it; those that belong to the notification as well are removed
 
-        :return: True if the notification was handled, False if it is unknown
+        :return: A list of functions that complete the handling of the notification, or None if it is unknown
         """
         if 'RING' in line:
             # Incoming call (or existing call is ringing)
-            self._handleIncomingCall(line, lines)
+            return self._handleIncomingCall(line, lines)
         elif line.startswith('+CMTI'):
             # New SMS message indication
-            self._handleSmsReceived(line)
+            return [lambda: self._handleSmsReceived(line)]
         elif line.startswith('+CUSD'):
             # USSD notification - either a response or a MT-USSD ("push USSD") message
             self._handleUssd([line] + self._takeUssdLines(line, lines))
         elif line.startswith('+CDSI'):
             # SMS status report
-            self._handleSmsStatusReport(line)
+            return [lambda: self._handleSmsStatusReport(line)]
         else:
             # Check for call status updates
             for updateRegex, handlerFunc in self._callStatusUpdates:
                 match = updateRegex.match(line)
                 if match:
                     # Handle the update
-                    handlerFunc(match)
-                    break
-            else:
-                return False
-        return True
+                    return handlerFunc(match)
+            return None
+        return []
 
     def _takeUssdLines(self, line, lines):
         """ Removes and returns those of the lines following the specified +CUSD line that belong to the same response:
@@ -975,6 +988,7 @@ class GsmModem(SerialComms):
 
     def _handleIncomingCall(self, ringLine, lines):
         self.log.debug('Handling incoming call')
+        actions = []
         if self._extendedIncomingCallIndication:
             try:
                 callType = ringLine.split(' ', 1)[1]
@@ -982,12 +996,7 @@ class GsmModem(SerialComms):
                 # Some external 3G scripts modify incoming call indication settings (issue #18)
                 self.log.debug('Extended incoming call indication format changed externally; re-enabling...')
                 callType = None
-                try:
-                    # Re-enable extended format of incoming indication (optional)
-                    self.write('AT+CRC=1') 
-                except CommandError:
-                    self.log.warn('Extended incoming call indication format changed externally; unable to re-enable')
-                    self._extendedIncomingCallIndication = False
+                actions.append(self._restoreExtendedIncomingCallIndication)
         else:
             callType = None
         if self._callingLineIdentification and len(lines) > 0 and lines[0].startswith('+CLIP'):
@@ -1015,8 +1024,17 @@ class GsmModem(SerialComms):
             callId = len(self.activeCalls) + 1;
             call = IncomingCall(self, callerNumber, ton, callerName, callId, callType)
             self.activeCalls[callId] = call
-        self.incomingCallCallback(call)    
-    
+        actions.append(lambda: self.incomingCallCallback(call))
+        return actions
+
+    def _restoreExtendedIncomingCallIndication(self):
+        """ Re-enables the extended format of incoming call indications (optional) """
+        try:
+            self.write('AT+CRC=1')
+        except GsmModemException:
+            self.log.warning('Extended incoming call indication format changed externally; unable to re-enable')
+            self._extendedIncomingCallIndication = False
+
     def _handleCallInitiated(self, regexMatch, callId=None, callType=1):
         """ Handler for "outgoing call initiated" event notification line """
         if self._dialEvent:
@@ -1030,23 +1048,23 @@ class GsmModem(SerialComms):
             else:
                 self._dialResponse = callId, callType
             self._dialEvent.set()
-                
+        return []
+
     def _handleCallAnswered(self, regexMatch, callId=None):
         """ Handler for "outgoing call answered" event notification line """
         if regexMatch:
             groups = regexMatch.groups()
             if len(groups) > 1:
                 callId = int(groups[0])
-                self.activeCalls[callId].answered = True
             else:
                 # Call ID not available for this notificition - check for the first outgoing call that has not been answered
                 for call in dictValuesIter(self.activeCalls):
                     if call.answered == False and type(call) == Call:
-                        call.answered = True
-                        return
-        else:
-            # Use supplied values
-            self.activeCalls[callId].answered = True
+                        callId = call.id
+                        break
+        if callId in self.activeCalls:
+            return self.activeCalls[callId]._setState(answered=True)
+        return []
 
     def _handleCallEnded(self, regexMatch, callId=None, filterUnanswered=False):
         if regexMatch:
@@ -1061,9 +1079,8 @@ class GsmModem(SerialComms):
                             callId = call.id
                             break
         if callId and callId in self.activeCalls:
-            self.activeCalls[callId].answered = False
-            self.activeCalls[callId].active = False
-            del self.activeCalls[callId]
+            return self.activeCalls[callId]._setState(answered=False, active=False)
+        return []
 
     def _handleCallRejected(self, regexMatch, callId=None):
         """ Handler for rejected (unanswered calls being ended)
@@ -1290,16 +1307,16 @@ class GsmModem(SerialComms):
                     elif expectedState == 1: # waiting for call to be answered
                         if stat == 0: # Call active
                             callId = int(clcc.group(1))
-                            self._handleCallAnswered(None, callId)
+                            self._startActions(self._handleCallAnswered(None, callId))
                             expectedState = 2 # Now wait for call hangup                            
             elif expectedState == 2 : # waiting for remote hangup
                 # Since there was no +CLCC response, the call is no longer active
                 callDone = True
-                self._handleCallEnded(None, callId=callId)
+                self._startActions(self._handleCallEnded(None, callId=callId))
             elif expectedState == 1: # waiting for call to be answered
                 # Call was rejected
                 callDone = True
-                self._handleCallRejected(None, callId=callId)
+                self._startActions(self._handleCallRejected(None, callId=callId))
         if timeLeft <= 0:
             raise TimeoutException()
 
@@ -1337,6 +1354,22 @@ class Call(object):
         self._answered = answered
         if self._callStatusUpdateCallbackFunc:
             self._callStatusUpdateCallbackFunc(self)
+
+    def _setState(self, answered, active=True):
+        """ Updates the state of this call; an inactive call is removed from the modem's active calls
+
+        Must be called with the modem's state lock held
+
+        :return: A list of functions to call (once the lock has been released) to tell the user about it
+        """
+        changed = (answered, active) != (self._answered, self.active)
+        self._answered = answered
+        self.active = active
+        if not active and self._gsmModem.activeCalls.get(self.id) is self:
+            del self._gsmModem.activeCalls[self.id]
+        if changed and self._callStatusUpdateCallbackFunc:
+            return [lambda: self._callStatusUpdateCallbackFunc(self)]
+        return []
     
     def sendDtmfTone(self, tones):
         """ Send one or more DTMF tones to the remote party (only allowed for an answered call) 
-- 
2.43.0


From cfa5228992021cd3970e797040f68acdbb8f8705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:30 +0000
Subject: [PATCH 46/80] fix: USSD requests got the replies to others, or none

---
 gsmmodem/modem.py | 47 ++++++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 4c35b08..2777f9c 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -144,6 +144,7 @@ class GsmModem(SerialComms):
         self.activeCalls = {}
         # Dict containing sent SMS messages (for auto-tracking their delivery status)
         self.sentSms = weakref.WeakValueDictionary()
+        self._ussdLock = threading.RLock() # Held during a USSD request; there can be only one at a time
         self._ussdSessionEvent = None # threading.Event
         self._ussdResponse = None # gsmmodem.modem.Ussd
         self._stateLock = threading.RLock() # Guards the state of calls and USSD sessions; no commands are sent and no callbacks called while it is held
@@ -736,26 +737,30 @@ class GsmModem(SerialComms):
         :return: The USSD response message/session (as a Ussd object)
         :rtype: gsmmodem.modem.Ussd
         """
-        self._ussdSessionEvent = threading.Event()
-        try:
-            cusdResponse = self.write('AT+CUSD=1,"{0}",15'.format(ussdString), timeout=responseTimeout) # Should respond with "OK"
-        except Exception:
-            self._ussdSessionEvent = None # Cancel the thread sync lock
-            raise
-
-        # Some modems issue the +CUSD response before the acknowledgment "OK" - check for that
-        if len(cusdResponse) > 1:
-            cusdResponseFound = lineStartingWith('+CUSD', cusdResponse) != None
-            if cusdResponseFound:
-                self._ussdSessionEvent = None # Cancel thread sync lock
-                return self._parseCusdResponse(cusdResponse)
-        # Wait for the +CUSD notification message
-        if self._ussdSessionEvent.wait(responseTimeout):
-            self._ussdSessionEvent = None
-            return self._ussdResponse
-        else: # Response timed out
-            self._ussdSessionEvent = None            
-            raise TimeoutException()
+        with self._ussdLock:
+            sessionEvent = threading.Event()
+            with self._txLock: # +CUSD notifications received before it is our turn do not belong to this request
+                self._ussdSessionEvent = sessionEvent
+                try:
+                    cusdResponse = self.write('AT+CUSD=1,"{0}",15'.format(ussdString), timeout=responseTimeout) # Should respond with "OK"
+                except Exception:
+                    self._ussdSessionEvent = None # Cancel the thread sync lock
+                    raise
+
+            # Some modems issue the +CUSD response before the acknowledgment "OK" - check for that
+            if len(cusdResponse) > 1:
+                cusdResponseFound = lineStartingWith('+CUSD', cusdResponse) != None
+                if cusdResponseFound:
+                    with self._stateLock:
+                        self._ussdSessionEvent = None # Cancel thread sync lock
+                        return self._parseCusdResponse(cusdResponse)
+            # Wait for the +CUSD notification message
+            sessionEvent.wait(responseTimeout)
+            with self._stateLock:
+                self._ussdSessionEvent = None
+                if sessionEvent.is_set():
+                    return self._ussdResponse
+            raise TimeoutException() # Response timed out
     
     def dial(self, number, timeout=5, callStatusUpdateCallbackFunc=None):
         """ Calls the specified phone number using a voice phone call
@@ -1230,7 +1235,7 @@ class GsmModem(SerialComms):
     
     def _handleUssd(self, lines):
         """ Handler for USSD event notification line(s) """
-        if self._ussdSessionEvent:
+        if self._ussdSessionEvent and not self._ussdSessionEvent.is_set():
             # A sendUssd() call is waiting for this response - parse it
             self._ussdResponse = self._parseCusdResponse(lines)
             # Notify waiting thread
-- 
2.43.0


From 97d0b684a3a24c217d836df323bd851ddc8fa99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:30 +0000
Subject: [PATCH 47/80] fix: USSD replies without text or with quotes in it
 were lost or cut short

---
 gsmmodem/modem.py | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 2777f9c..4fc037e 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -127,7 +127,7 @@ class GsmModem(SerialComms):
     # Used for parsing SMS message reads (PDU mode)
     CMGR_REGEX_PDU = None
     # Used for parsing USSD event notifications
-    CUSD_REGEX = re.compile(r'\+CUSD:\s*(\d),"(.*?)",(\d+)', re.DOTALL)
+    CUSD_REGEX = re.compile(r'\+CUSD:\s*(\d)\s*(?:,\s*(?:"(.*?)"?)?\s*(?:,\s*(\d*)\s*)?)?$', re.DOTALL)
     # Used for parsing SMS status reports
     CDSI_REGEX = re.compile(r'\+CDSI:\s*"([^"]+)",(\d+)$')
     
@@ -984,13 +984,27 @@ class GsmModem(SerialComms):
     def _takeUssdLines(self, line, lines):
         """ Removes and returns those of the lines following the specified +CUSD line that belong to the same response:
         the rest of its message, and further +CUSD lines """
-        taken = []
-        while len(lines) > 0 and (lines[0].startswith('+CUSD') or '"' in line and not self.CUSD_REGEX.match(line)):
-            nextLine = lines.pop(0)
-            taken.append(nextLine)
-            line = nextLine if nextLine.startswith('+CUSD') else '\r\n'.join((line, nextLine))
+        count = self._cusdLength([line] + lines) - 1
+        while count < len(lines) and lines[count].startswith('+CUSD'):
+            count += self._cusdLength(lines[count:])
+        taken = lines[:count]
+        del lines[:count]
         return taken
 
+    def _cusdLength(self, lines):
+        """ Returns the number of lines that the +CUSD response starting with the first of the specified lines consists of """
+        if '"' not in lines[0]:
+            return 1 # No message
+        end = 1
+        while end < len(lines) and not lines[end].startswith(('+CUSD', '+CMTI', '+CDSI', '+CRING', '+CLIP')):
+            end += 1
+        # Issue #20: Some modem/network combinations use \r\n as in-message EOL indicators; look for the end of the message
+        for endRegex in (r'.*",\s*\d+\s*$', r'.*[^\s,]\s*"\s*$'): # the second one is for modems that do not send the encoding
+            for i in xrange(end):
+                if re.match(endRegex, lines[i]):
+                    return i + 1
+        return 1
+
     def _handleIncomingCall(self, ringLine, lines):
         self.log.debug('Handling incoming call')
         actions = []
@@ -1246,14 +1260,17 @@ class GsmModem(SerialComms):
         :return: USSD response object
         :rtype: gsmmodem.modem.Ussd
         """
-        if len(lines) > 1:
+        # Look for more than one +CUSD response because of certain modems' strange behaviour
+        cusdMatches = []
+        lines = list(lines)
+        while len(lines) > 0:
+            count = self._cusdLength(lines) if lines[0].startswith('+CUSD') else 1
             # Issue #20: Some modem/network combinations use \r\n as in-message EOL indicators;
             # - join lines to compensate for that (thanks to davidjb for the fix)
-            # Also, look for more than one +CUSD response because of certain modems' strange behaviour
-            cusdMatches = list(self.CUSD_REGEX.finditer('\r\n'.join(lines)))
-        else:
-            # Single standard +CUSD response
-            cusdMatches = [self.CUSD_REGEX.match(lines[0])]
+            cusdMatch = self.CUSD_REGEX.match('\r\n'.join(lines[:count]))
+            if cusdMatch:
+                cusdMatches.append(cusdMatch)
+            del lines[:count]
         message = None
         sessionActive = True
         if len(cusdMatches) > 1:
@@ -1272,7 +1289,7 @@ class GsmModem(SerialComms):
         else:
             sessionActive = cusdMatches[0].group(1) == '1'
             message = cusdMatches[0].group(2)
-        return Ussd(self, sessionActive, message)
+        return Ussd(self, sessionActive, message or '')
 
     def _placeHolderCallback(self, *args):
         """ Does nothing """
-- 
2.43.0


From 0625915ced107aedbe9307cbba88709c7833ef61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 48/80] fix: a USSD session that had been cancelled or released
 was still taken for open

---
 gsmmodem/modem.py | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 4fc037e..508c6ad 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -147,6 +147,7 @@ class GsmModem(SerialComms):
         self._ussdLock = threading.RLock() # Held during a USSD request; there can be only one at a time
         self._ussdSessionEvent = None # threading.Event
         self._ussdResponse = None # gsmmodem.modem.Ussd
+        self._ussdSession = weakref.WeakSet() # responses (gsmmodem.modem.Ussd) in the current session
         self._stateLock = threading.RLock() # Guards the state of calls and USSD sessions; no commands are sent and no callbacks called while it is held
         self._smsStatusReportLock = threading.Lock() # Guards the pairing of status reports with threads waiting for them
         self._dialEvent = None # threading.Event
@@ -1249,11 +1250,19 @@ class GsmModem(SerialComms):
     
     def _handleUssd(self, lines):
         """ Handler for USSD event notification line(s) """
+        ussd = self._parseCusdResponse(lines)
         if self._ussdSessionEvent and not self._ussdSessionEvent.is_set():
-            # A sendUssd() call is waiting for this response - parse it
-            self._ussdResponse = self._parseCusdResponse(lines)
+            # A sendUssd() call is waiting for this response
+            self._ussdResponse = ussd
             # Notify waiting thread
             self._ussdSessionEvent.set()
+
+    def _endUssdSession(self):
+        """ Marks the current USSD session (if any) as inactive """
+        with self._stateLock:
+            for ussd in list(self._ussdSession):
+                ussd.sessionActive = False
+            self._ussdSession.clear()
     
     def _parseCusdResponse(self, lines):
         """ Parses one or more +CUSD notification lines (for USSD)
@@ -1289,7 +1298,12 @@ class GsmModem(SerialComms):
         else:
             sessionActive = cusdMatches[0].group(1) == '1'
             message = cusdMatches[0].group(2)
-        return Ussd(self, sessionActive, message or '')
+        ussd = Ussd(self, sessionActive, message or '')
+        if sessionActive:
+            self._ussdSession.add(ussd)
+        else:
+            self._endUssdSession()
+        return ussd
 
     def _placeHolderCallback(self, *args):
         """ Does nothing """
@@ -1495,15 +1509,19 @@ class Ussd(object):
         
         :return: The USSD response message/session (as a Ussd object)
         """
-        if self.sessionActive:
-            return self._gsmModem.sendUssd(message)
-        else:
-            raise InvalidStateException('USSD session is inactive')
+        with self._gsmModem._ussdLock: # another request may be about to end the session
+            if self.sessionActive:
+                return self._gsmModem.sendUssd(message)
+            else:
+                raise InvalidStateException('USSD session is inactive')
                 
     def cancel(self):
         """ Terminates/cancels the USSD session (without sending a reply)
         
         Does nothing if the USSD session is inactive.
         """
-        if self.sessionActive:
-            self._gsmModem.write('AT+CUSD=2')
+        with self._gsmModem._txLock:
+            if self.sessionActive:
+                self._gsmModem.write('AT+CUSD=2')
+                self.sessionActive = False
+                self._gsmModem._endUssdSession()
-- 
2.43.0


From 5079df31f9e623b2bc24913d7ca9ef8749780a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:46 +0000
Subject: [PATCH 49/80] fix: a USSD message containing the word RING was taken
 for an incoming call

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 508c6ad..64a7b60 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -960,7 +960,7 @@ class GsmModem(SerialComms):
 
         :return: A list of functions that complete the handling of the notification, or None if it is unknown
         """
-        if 'RING' in line:
+        if line == 'RING' or line.startswith('+CRING'):
             # Incoming call (or existing call is ringing)
             return self._handleIncomingCall(line, lines)
         elif line.startswith('+CMTI'):
-- 
2.43.0


From 9d7f148e1f36918e356b80f20572a67871fb8870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:46 +0000
Subject: [PATCH 50/80] fix: lines after a USSD message with line feeds in it
 were taken for a part of it

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 64a7b60..635eaae 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1002,7 +1002,7 @@ class GsmModem(SerialComms):
         # Issue #20: Some modem/network combinations use \r\n as in-message EOL indicators; look for the end of the message
         for endRegex in (r'.*",\s*\d+\s*$', r'.*[^\s,]\s*"\s*$'): # the second one is for modems that do not send the encoding
             for i in xrange(end):
-                if re.match(endRegex, lines[i]):
+                if re.match(endRegex, lines[i], re.DOTALL):
                     return i + 1
         return 1
 
-- 
2.43.0


From 65e9c3c5be18ca36bbcc3796863f2c6191b4b2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:46 +0000
Subject: [PATCH 51/80] fix: a USSD session could be taken for open or closed
 wrongly while a request was completed

---
 gsmmodem/modem.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 635eaae..1adace1 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -738,9 +738,18 @@ class GsmModem(SerialComms):
         :return: The USSD response message/session (as a Ussd object)
         :rtype: gsmmodem.modem.Ussd
         """
+        return self._sendUssd(ussdString, responseTimeout)
+
+    def _sendUssd(self, ussdString, responseTimeout=15, prompt=None):
+        """ Implementation of sendUssd() and Ussd.reply()
+
+        :param prompt: The USSD message that is replied to, if any
+        """
         with self._ussdLock:
             sessionEvent = threading.Event()
             with self._txLock: # +CUSD notifications received before it is our turn do not belong to this request
+                if prompt != None and not prompt.sessionActive:
+                    raise InvalidStateException('USSD session is inactive')
                 self._ussdSessionEvent = sessionEvent
                 try:
                     cusdResponse = self.write('AT+CUSD=1,"{0}",15'.format(ussdString), timeout=responseTimeout) # Should respond with "OK"
@@ -748,13 +757,17 @@ class GsmModem(SerialComms):
                     self._ussdSessionEvent = None # Cancel the thread sync lock
                     raise
 
-            # Some modems issue the +CUSD response before the acknowledgment "OK" - check for that
-            if len(cusdResponse) > 1:
-                cusdResponseFound = lineStartingWith('+CUSD', cusdResponse) != None
-                if cusdResponseFound:
-                    with self._stateLock:
-                        self._ussdSessionEvent = None # Cancel thread sync lock
-                        return self._parseCusdResponse(cusdResponse)
+                # Some modems issue the +CUSD response before the acknowledgment "OK" - check for that
+                if len(cusdResponse) > 1:
+                    cusdResponseFound = lineStartingWith('+CUSD', cusdResponse) != None
+                    if cusdResponseFound:
+                        with self._stateLock:
+                            self._ussdSessionEvent = None # Cancel thread sync lock
+                            response = self._parseCusdResponse(cusdResponse)
+                            if sessionEvent.is_set() and not self._ussdResponse.sessionActive:
+                                # The session has been released since
+                                self._endUssdSession()
+                            return response
             # Wait for the +CUSD notification message
             sessionEvent.wait(responseTimeout)
             with self._stateLock:
@@ -1509,11 +1522,10 @@ class Ussd(object):
         
         :return: The USSD response message/session (as a Ussd object)
         """
-        with self._gsmModem._ussdLock: # another request may be about to end the session
-            if self.sessionActive:
-                return self._gsmModem.sendUssd(message)
-            else:
-                raise InvalidStateException('USSD session is inactive')
+        if self.sessionActive:
+            return self._gsmModem._sendUssd(message, prompt=self)
+        else:
+            raise InvalidStateException('USSD session is inactive')
                 
     def cancel(self):
         """ Terminates/cancels the USSD session (without sending a reply)
-- 
2.43.0


From 8def70172e4a021c09c4ae49248f83a8eaf51154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:59 +0000
Subject: [PATCH 52/80] fix: an outgoing call could be lost, or take the place
 of another one, while it was set up

---
 gsmmodem/modem.py | 184 +++++++++++++++++++++++++++++-----------------
 1 file changed, 116 insertions(+), 68 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 1adace1..957fdb4 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -150,7 +150,9 @@ class GsmModem(SerialComms):
         self._ussdSession = weakref.WeakSet() # responses (gsmmodem.modem.Ussd) in the current session
         self._stateLock = threading.RLock() # Guards the state of calls and USSD sessions; no commands are sent and no callbacks called while it is held
         self._smsStatusReportLock = threading.Lock() # Guards the pairing of status reports with threads waiting for them
+        self._dialLock = threading.RLock() # Held while an outgoing call is set up
         self._dialEvent = None # threading.Event
+        self._dialRequest = None # number and callback function of the outgoing call being set up
         self._dialResponse = None # gsmmodem.modem.Call
         self._waitForAtdResponse = True # Flag that controls if we should wait for an immediate response to ATD, or not
         self._waitForCallInitUpdate = True # Flag that controls if we should wait for a ATD "call initiated" message
@@ -291,7 +293,7 @@ class GsmModem(SerialComms):
             # Unknown modem - we do not know what its call updates look like. Use polling instead
             self.log.info('Unknown/generic modem type - will use polling for call state updates')
             self._mustPollCallStatus = True
-            self._pollCallStatusRegex = re.compile('^\+CLCC:\s+(\d+),(\d),(\d),(\d),([^,]),"([^,]*)",(\d+)$')
+            self._pollCallStatusRegex = re.compile(r'^\+CLCC:\s*(\d+),\s*(\d),\s*(\d),\s*(\d)(?:,.*)?$')
             self._waitForAtdResponse = True # Most modems return OK immediately after issuing ATD
 
         # General meta-information setup
@@ -787,37 +789,73 @@ class GsmModem(SerialComms):
         :return: The outgoing call
         :rtype: gsmmodem.modem.Call
         """
-        if self._waitForCallInitUpdate:
-            # Wait for the "call originated" notification message
-            self._dialEvent = threading.Event()
-            try:
-                self.write('ATD{0};'.format(number), timeout=timeout, waitForResponse=self._waitForAtdResponse)
-            except Exception:
-                self._dialEvent = None # Cancel the thread sync lock
-                raise
-        else:
-            # Don't wait for a call init update - base the call ID on the number of active calls
-            self.write('ATD{0};'.format(number), timeout=timeout, waitForResponse=self._waitForAtdResponse)
-            self.log.debug("Not waiting for outgoing call init update message")
-            callId = len(self.activeCalls) + 1
-            callType = 0 # Assume voice
-            call = Call(self, callId, callType, number, callStatusUpdateCallbackFunc)
-            self.activeCalls[callId] = call
-            return call
+        with self._dialLock: # call set-up notifications do not tell which call they are about
+            if self._waitForCallInitUpdate:
+                # Wait for the "call originated" notification message
+                dialEvent = threading.Event()
+                with self._txLock: # notifications received before it is our turn do not belong to this call
+                    with self._stateLock:
+                        self._dialRequest = (number, callStatusUpdateCallbackFunc)
+                        self._dialEvent = dialEvent
+                    try:
+                        self.write('ATD{0};'.format(number), timeout=timeout, waitForResponse=self._waitForAtdResponse)
+                    except Exception:
+                        with self._stateLock:
+                            self._dialEvent = None # Cancel the thread sync lock
+                            if dialEvent.is_set(): # The call has been set up, but then failed
+                                self._dialResponse._setState(answered=False, active=False)
+                        raise
+            else:
+                # Don't wait for a call init update - base the call ID on the active calls
+                callType = 0 # Assume voice
+                with self._txLock:
+                    with self._stateLock: # The first notification about this call may arrive at once
+                        call = Call(self, self._unusedCallId(), callType, number, callStatusUpdateCallbackFunc)
+                        self.activeCalls[call.id] = call
+                    try:
+                        self.write('ATD{0};'.format(number), timeout=timeout, waitForResponse=self._waitForAtdResponse)
+                    except Exception:
+                        with self._stateLock:
+                            call._setState(answered=False, active=False)
+                        raise
+                self.log.debug("Not waiting for outgoing call init update message")
+                return call
 
-        if self._mustPollCallStatus:
-            # Fake a call notification by polling call status until the status indicates that the call is being dialed
-            threading.Thread(target=self._pollCallStatus, kwargs={'expectedState': 0, 'timeout': timeout}).start()
+            if self._mustPollCallStatus:
+                # Fake a call notification by polling call status until the status indicates that the call is being dialed
+                threading.Thread(target=self._pollCallStatus, kwargs={'expectedState': 0, 'timeout': timeout, 'dialEvent': dialEvent}).start()
 
-        if self._dialEvent.wait(timeout):
-            self._dialEvent = None
-            callId, callType = self._dialResponse
-            call = Call(self, callId, callType, number, callStatusUpdateCallbackFunc)
-            self.activeCalls[callId] = call
-            return call
-        else: # Call establishing timed out
-            self._dialEvent = None
-            raise TimeoutException()
+            dialEvent.wait(timeout)
+            with self._stateLock:
+                self._dialEvent = None
+                if dialEvent.is_set():
+                    return self._dialResponse
+            raise TimeoutException() # Call establishing timed out
+
+    def _unusedCallId(self):
+        """ Returns the smallest call ID that no active call has """
+        callId = 1
+        while callId in self.activeCalls:
+            callId += 1
+        return callId
+
+    def _registerCall(self, call):
+        """ Adds an outgoing call the modem has reported to the active calls
+
+        :return: A list of functions to call (see Call._setState())
+        """
+        actions = []
+        otherCall = self.activeCalls.get(call.id)
+        if otherCall != None:
+            if isinstance(otherCall, IncomingCall):
+                # The ID of an incoming call is just a guess
+                otherCall.id = self._unusedCallId()
+                self.activeCalls[otherCall.id] = otherCall
+            else:
+                # The modem uses the ID of a call again once it has ended
+                actions = otherCall._setState(answered=False, active=False)
+        self.activeCalls[call.id] = call
+        return actions
 
     def processStoredSms(self, unreadOnly=False):
         """ Process all SMS messages currently stored on the device/SIM card.
@@ -1070,17 +1108,20 @@ class GsmModem(SerialComms):
 
     def _handleCallInitiated(self, regexMatch, callId=None, callType=1):
         """ Handler for "outgoing call initiated" event notification line """
-        if self._dialEvent:
+        if self._dialEvent and not self._dialEvent.is_set():
             if regexMatch:
                 groups = regexMatch.groups()
-                # Set self._dialReponse to (callId, callType)
+                callId = int(groups[0])
                 if len(groups) >= 2:
-                    self._dialResponse = (int(groups[0]) , int(groups[1]))
+                    callType = int(groups[1])
                 else:
-                    self._dialResponse = (int(groups[0]), 1) # assume call type: VOICE
-            else:
-                self._dialResponse = callId, callType
+                    callType = 1 # assume call type: VOICE
+            number, callbackFunc = self._dialRequest
+            call = Call(self, callId, callType, number, callbackFunc)
+            actions = self._registerCall(call) # Further notifications about this call may follow at once
+            self._dialResponse = call
             self._dialEvent.set()
+            return actions
         return []
 
     def _handleCallAnswered(self, regexMatch, callId=None):
@@ -1322,52 +1363,59 @@ class GsmModem(SerialComms):
         """ Does nothing """
         self.log.debug('called with args: {0}'.format(args))
     
-    def _pollCallStatus(self, expectedState, callId=None, timeout=None):
-        """ Poll the status of outgoing calls.    
+    def _pollCallStatus(self, expectedState, timeout=None, dialEvent=None):
+        """ Poll the status of the outgoing call being set up, until it has ended.
         This is used for modems that do not have a known set of call status update notifications.
         
         :param expectedState: The internal state we are waiting for. 0 == initiated, 1 == answered, 2 = hangup
         :type expectedState: int
-        
-        :raise TimeoutException: If a timeout was specified, and has occurred
+        :param dialEvent: The event that the dial() call waits for
         """
+        call = None
         callDone = False
         timeLeft = timeout or 999999
         while self.alive and not callDone and timeLeft > 0:
             time.sleep(0.5)
             if expectedState == 0: # Only call initializing can timeout
                 timeLeft -= 0.5
+            elif not call.active: # Hung up meanwhile
+                break
             try:
-                clcc = self._pollCallStatusRegex.match(self.write('AT+CLCC')[0])
-            except TimeoutException as timeout:
+                response = self.write('AT+CLCC')
+            except TimeoutException:
                 # Can happend if the call was ended during our time.sleep() call
-                clcc = None
-            if clcc:
-                direction = int(clcc.group(2))
-                if direction == 0: # Outgoing call
-                    # Determine call state
-                    stat = int(clcc.group(3))
-                    if expectedState == 0: # waiting for call initiated
-                        if stat == 2 or stat == 3: # Dialing or ringing ("alerting")                            
-                            callId = int(clcc.group(1))
-                            callType = int(clcc.group(4))
-                            self._handleCallInitiated(None, callId, callType) # if self_dialEvent is None, this does nothing
+                response = []
+            except CommandError as error:
+                self.log.debug('Unable to poll call status: %s', error)
+                continue
+            # Outgoing calls: maps call ID to state and type
+            callStates = {}
+            for line in response:
+                clcc = self._pollCallStatusRegex.match(line)
+                if clcc and int(clcc.group(2)) == 0: # Outgoing call
+                    callStates[int(clcc.group(1))] = int(clcc.group(3)), int(clcc.group(4))
+            actions = []
+            with self._stateLock:
+                if expectedState == 0: # waiting for call initiated
+                    if self._dialEvent is not dialEvent:
+                        break # dial() has given up
+                    for callId, (stat, callType) in sorted(callStates.items()):
+                        otherCall = self.activeCalls.get(callId)
+                        if stat in (0, 2, 3) and (otherCall == None or isinstance(otherCall, IncomingCall) or (otherCall.answered and stat != 0)): # Active, dialing or ringing ("alerting")
+                            actions.extend(self._handleCallInitiated(None, callId, callType))
+                            call = self._dialResponse
                             expectedState = 1 # Now wait for call answer
-                    elif expectedState == 1: # waiting for call to be answered
-                        if stat == 0: # Call active
-                            callId = int(clcc.group(1))
-                            self._startActions(self._handleCallAnswered(None, callId))
-                            expectedState = 2 # Now wait for call hangup                            
-            elif expectedState == 2 : # waiting for remote hangup
-                # Since there was no +CLCC response, the call is no longer active
-                callDone = True
-                self._startActions(self._handleCallEnded(None, callId=callId))
-            elif expectedState == 1: # waiting for call to be answered
-                # Call was rejected
-                callDone = True
-                self._startActions(self._handleCallRejected(None, callId=callId))
-        if timeLeft <= 0:
-            raise TimeoutException()
+                            break
+                if call != None:
+                    if call.id not in callStates:
+                        # The call is no longer active: it has ended, or was rejected
+                        callDone = True
+                        if call.active:
+                            actions.extend(self._handleCallEnded(None, callId=call.id))
+                    elif expectedState == 1 and callStates[call.id][0] == 0 and call.active: # Call active
+                        actions.extend(self._handleCallAnswered(None, call.id))
+                        expectedState = 2 # Now wait for call hangup
+            self._startActions(actions)
 
 
 class Call(object):
-- 
2.43.0


From d78969b07fcc78f551344e342b94be04eb8b39ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:59 +0000
Subject: [PATCH 53/80] fix: the end of a Huawei call that took more than 9
 seconds was not noticed

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 957fdb4..ac14422 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -263,7 +263,7 @@ class GsmModem(SerialComms):
             self.log.info('Loading Huawei call state update table')
             self._callStatusUpdates = ((re.compile(r'^\^ORIG:(\d),(\d)$'), self._handleCallInitiated),
                                        (re.compile(r'^\^CONN:(\d),(\d)$'), self._handleCallAnswered),
-                                       (re.compile(r'^\^CEND:(\d),(\d),(\d)+,(\d)+$'), self._handleCallEnded))
+                                       (re.compile(r'^\^CEND:(\d),(\d+),(\d+)(?:,(\d+))?$'), self._handleCallEnded))
             self._mustPollCallStatus = False
             # Huawei modems use ^DTMF to send DTMF tones; use that instead
             Call.DTMF_COMMAND_BASE = '^DTMF={cid},'
-- 
2.43.0


From 2c770a51363c1215a4ed18420481f1b45a301fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:59 +0000
Subject: [PATCH 54/80] fix: hanging up or answering a call that had just ended
 affected the other calls

---
 gsmmodem/modem.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index ac14422..520e073 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1504,12 +1504,14 @@ class Call(object):
         
         Does nothing if the call is already inactive.
         """
-        if self.active:
-            self._gsmModem.write('ATH')
-            self.answered = False
-            self.active = False
-        if self.id in self._gsmModem.activeCalls:
-            del self._gsmModem.activeCalls[self.id]
+        actions = []
+        with self._gsmModem._txLock: # it may end while other commands are in progress
+            if self.active:
+                self._gsmModem.write('ATH')
+                with self._gsmModem._stateLock:
+                    actions = self._setState(answered=False, active=False)
+        for action in actions:
+            action()
 
 
 class IncomingCall(Call):
@@ -1539,16 +1541,21 @@ class IncomingCall(Call):
         """ Answer the phone call.        
         :return: self (for chaining method calls)
         """
-        if self.ringing:
-            self._gsmModem.write('ATA')
-            self.ringing = False
-            self.answered = True
+        actions = []
+        with self._gsmModem._txLock: # it may end while other commands are in progress
+            if self.ringing:
+                self._gsmModem.write('ATA')
+                with self._gsmModem._stateLock:
+                    if self.active:
+                        actions = self._setState(answered=True)
+        for action in actions:
+            action()
         return self    
 
-    def hangup(self):
-        """ End the phone call. """
-        self.ringing = False
-        super(IncomingCall, self).hangup()
+    def _setState(self, answered, active=True):
+        if answered or not active:
+            self.ringing = False
+        return super(IncomingCall, self)._setState(answered, active)
 
 class Ussd(object):
     """ Unstructured Supplementary Service Data (USSD) message.
-- 
2.43.0


From fd19c20a007272fe7f56515e2dd1ccdda37759d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:59 +0000
Subject: [PATCH 55/80] fix: incoming calls of unusual types or announced
 without blank were not reported, and calls were confused with outgoing ones

---
 gsmmodem/modem.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 520e073..b56d72c 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -117,7 +117,7 @@ class GsmModem(SerialComms):
     # Used for parsing signal strength query responses
     CSQ_REGEX = re.compile(r'^\+CSQ:\s*(\d+),')
     # Used for parsing caller ID announcements for incoming calls. Group 1 is the number
-    CLIP_REGEX = re.compile(r'^\+CLIP:\s*"(\+{0,1}\d+)",(\d+).*$')
+    CLIP_REGEX = re.compile(r'^\+CLIP:\s*"(\+{0,1}[\d*#]+)",\s*(\d+).*$')
     # Used for parsing new SMS message indications
     CMTI_REGEX = re.compile(r'^\+CMTI:\s*"([^"]+)",(\d+)$')
     # Used for parsing SMS message reads (text mode)
@@ -1060,16 +1060,13 @@ class GsmModem(SerialComms):
     def _handleIncomingCall(self, ringLine, lines):
         self.log.debug('Handling incoming call')
         actions = []
-        if self._extendedIncomingCallIndication:
-            try:
-                callType = ringLine.split(' ', 1)[1]
-            except IndexError:
-                # Some external 3G scripts modify incoming call indication settings (issue #18)
-                self.log.debug('Extended incoming call indication format changed externally; re-enabling...')
-                callType = None
-                actions.append(self._restoreExtendedIncomingCallIndication)
-        else:
-            callType = None
+        callType = None
+        if ringLine.startswith('+CRING:'):
+            callType = ringLine[7:].strip()
+        elif self._extendedIncomingCallIndication:
+            # Some external 3G scripts modify incoming call indication settings (issue #18)
+            self.log.debug('Extended incoming call indication format changed externally; re-enabling...')
+            actions.append(self._restoreExtendedIncomingCallIndication)
         if self._callingLineIdentification and len(lines) > 0 and lines[0].startswith('+CLIP'):
             clipLine = lines.pop(0)
             clipMatch = self.CLIP_REGEX.match(clipLine)
@@ -1088,11 +1085,11 @@ class GsmModem(SerialComms):
         
         call = None
         for activeCall in dictValuesIter(self.activeCalls):
-            if activeCall.number == callerNumber:
+            if isinstance(activeCall, IncomingCall) and activeCall.number == callerNumber:
                 call = activeCall
                 call.ringCount += 1
         if call == None:
-            callId = len(self.activeCalls) + 1;
+            callId = self._unusedCallId()
             call = IncomingCall(self, callerNumber, ton, callerName, callId, callType)
             self.activeCalls[callId] = call
         actions.append(lambda: self.incomingCallCallback(call))
@@ -1527,7 +1524,7 @@ class IncomingCall(Call):
         :param callType: Type of the incoming call (VOICE, FAX, DATA, etc)
         """
         if type(callType) == str:
-            callType = self.CALL_TYPE_MAP[callType] 
+            callType = self.CALL_TYPE_MAP.get(callType, callType)
         super(IncomingCall, self).__init__(gsmModem, callId, callType, number)        
         # Type attribute of the incoming call
         self.ton = ton
-- 
2.43.0


From 805677e99077d9fd8ba1b7cf5a6c21aee75c9fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:59 +0000
Subject: [PATCH 56/80] fix: DTMF tones were sent in the syntax of another
 modem, and in calls that had just ended

---
 gsmmodem/modem.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index b56d72c..6a449d7 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -150,6 +150,7 @@ class GsmModem(SerialComms):
         self._ussdSession = weakref.WeakSet() # responses (gsmmodem.modem.Ussd) in the current session
         self._stateLock = threading.RLock() # Guards the state of calls and USSD sessions; no commands are sent and no callbacks called while it is held
         self._smsStatusReportLock = threading.Lock() # Guards the pairing of status reports with threads waiting for them
+        self._dtmfCommandBase = '+VTS=' # Command for sending DTMF tones
         self._dialLock = threading.RLock() # Held while an outgoing call is set up
         self._dialEvent = None # threading.Event
         self._dialRequest = None # number and callback function of the outgoing call being set up
@@ -266,7 +267,7 @@ class GsmModem(SerialComms):
                                        (re.compile(r'^\^CEND:(\d),(\d+),(\d+)(?:,(\d+))?$'), self._handleCallEnded))
             self._mustPollCallStatus = False
             # Huawei modems use ^DTMF to send DTMF tones; use that instead
-            Call.DTMF_COMMAND_BASE = '^DTMF={cid},'
+            Call.DTMF_COMMAND_BASE = self._dtmfCommandBase = '^DTMF={cid},'
             Call.dtmfSupport = True
         elif callUpdateTableHint == 2:
             # Wavecom modem: +WIND notifications supported
@@ -1475,8 +1476,13 @@ class Call(object):
         :raise CommandError: if the command failed/is not supported        
         :raise InvalidStateException: if the call has not been answered, or is ended while the command is still executing
         """        
+        with self._gsmModem._txLock: # it may end while other commands are in progress
+            self._sendDtmfTone(tones)
+
+    def _sendDtmfTone(self, tones):
+        """ Implementation of sendDtmfTone() """
         if self.answered:
-            dtmfCommandBase = self.DTMF_COMMAND_BASE.format(cid=self.id)
+            dtmfCommandBase = self._gsmModem._dtmfCommandBase.format(cid=self.id)
             toneLen = len(tones)
             if len(tones) > 1:
                 cmd = ('AT{0}{1};{0}' + ';{0}'.join(tones[1:])).format(dtmfCommandBase, tones[0])                
-- 
2.43.0


From 0308f71e49e77549c1ddfb24ae739e1bb74be2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:28 +0000
Subject: [PATCH 57/80] fix: calls with identifiers of more than one digit were
 lost

---
 gsmmodem/modem.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 6a449d7..b8dd2ee 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -262,9 +262,9 @@ class GsmModem(SerialComms):
         if callUpdateTableHint == 1:
             # Use Hauwei's ^NOTIFICATIONs
             self.log.info('Loading Huawei call state update table')
-            self._callStatusUpdates = ((re.compile(r'^\^ORIG:(\d),(\d)$'), self._handleCallInitiated),
-                                       (re.compile(r'^\^CONN:(\d),(\d)$'), self._handleCallAnswered),
-                                       (re.compile(r'^\^CEND:(\d),(\d+),(\d+)(?:,(\d+))?$'), self._handleCallEnded))
+            self._callStatusUpdates = ((re.compile(r'^\^ORIG:(\d+),(\d+)$'), self._handleCallInitiated),
+                                       (re.compile(r'^\^CONN:(\d+),(\d+)$'), self._handleCallAnswered),
+                                       (re.compile(r'^\^CEND:(\d+),(\d+),(\d+)(?:,(\d+))?$'), self._handleCallEnded))
             self._mustPollCallStatus = False
             # Huawei modems use ^DTMF to send DTMF tones; use that instead
             Call.DTMF_COMMAND_BASE = self._dtmfCommandBase = '^DTMF={cid},'
@@ -272,9 +272,9 @@ class GsmModem(SerialComms):
         elif callUpdateTableHint == 2:
             # Wavecom modem: +WIND notifications supported
             self.log.info('Loading Wavecom call state update table')
-            self._callStatusUpdates = ((re.compile(r'^\+WIND: 5,(\d)$'), self._handleCallInitiated),
+            self._callStatusUpdates = ((re.compile(r'^\+WIND: 5,(\d+)$'), self._handleCallInitiated),
                                       (re.compile(r'^OK$'), self._handleCallAnswered),
-                                      (re.compile(r'^\+WIND: 6,(\d)$'), self._handleCallEnded))
+                                      (re.compile(r'^\+WIND: 6,(\d+)$'), self._handleCallEnded))
             self._waitForAtdResponse = False # Wavecom modems return OK only when the call is answered
             self._mustPollCallStatus = False
             if commands == None: # older modem, assume it has standard DTMF support
-- 
2.43.0


From f96ffcdb2618861d07ca620b0b802fe5cffd479a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:46 +0000
Subject: [PATCH 58/80] fix: the wait for network coverage failed on a +CREG
 reply with location information and gave up checking when the modem was busy

---
 gsmmodem/modem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index b8dd2ee..ec94fe9 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -638,7 +638,10 @@ class GsmModem(SerialComms):
         checkCreg = True
         while block[0]:
             if checkCreg:
-                cregResult = lineMatching(r'^\+CREG:\s*(\d),(\d)$', self.write('AT+CREG?', parseError=False)) # example result: +CREG: 0,1
+                try:
+                    cregResult = lineMatching(r'^\+CREG:\s*(\d+),\s*(\d+)(?:,.*)?$', self.write('AT+CREG?')) # example result: +CREG: 0,1
+                except CommandError:
+                    cregResult = None
                 if cregResult:
                     status = int(cregResult.group(2))
                     if status in (1, 5):
-- 
2.43.0


From c262ce9dd5a416066a3f673ef3e5e1809b1cf4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:46 +0000
Subject: [PATCH 59/80] fix: a registration lost while waiting for a signal was
 not noticed by waitForNetworkCoverage

---
 gsmmodem/modem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index ec94fe9..5be480d 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -635,7 +635,7 @@ class GsmModem(SerialComms):
             t = threading.Timer(timeout, _cancelBlock)
             t.start()
         ss = -1
-        checkCreg = True
+        cregSupported = checkCreg = True
         while block[0]:
             if checkCreg:
                 try:
@@ -655,12 +655,13 @@ class GsmModem(SerialComms):
                 else:
                     # Disable network registration check; only use signal strength
                     self.log.info('+CREG check disabled due to invalid response or unsupported command')
-                    checkCreg = False
+                    cregSupported = checkCreg = False
             else:
                 # Check signal strength
                 ss = self.signalStrength
                 if ss > 0:
                     return ss
+                checkCreg = cregSupported # The registration may be lost while waiting for a signal
             time.sleep(1)
         else:
             # If this is reached, the timer task has triggered
-- 
2.43.0


From 4fe8f9e086f7529517d673040ca3341598c9a30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:46 +0000
Subject: [PATCH 60/80] fix: a timer of waitForNetworkCoverage stayed alive
 after the wait had ended

---
 gsmmodem/modem.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 5be480d..dea0bcc 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -634,6 +634,14 @@ class GsmModem(SerialComms):
                 block[0] = False                
             t = threading.Timer(timeout, _cancelBlock)
             t.start()
+        try:
+            return self._waitForNetworkCoverage(block)
+        finally:
+            if timeout != None:
+                t.cancel()
+
+    def _waitForNetworkCoverage(self, block):
+        """ Block until the modem has GSM network coverage, or block[0] becomes False """
         ss = -1
         cregSupported = checkCreg = True
         while block[0]:
-- 
2.43.0


From 04adb3caac8de4f0d64f43f0bb495c631901817e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:46 +0000
Subject: [PATCH 61/80] fix: the network name was not recognised without a
 blank after +COPS:

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index dea0bcc..f6cc31f 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -530,7 +530,7 @@ class GsmModem(SerialComms):
     @property
     def networkName(self):
         """ :return: the name of the GSM Network Operator to which the modem is connected """
-        copsMatch = lineMatching(r'^\+COPS: (\d),(\d),"(.+)",{0,1}\d*$', self.write('AT+COPS?')) # response format: +COPS: mode,format,"operator_name",x
+        copsMatch = lineMatching(r'^\+COPS:\s*(\d),(\d),"(.+)",{0,1}\d*$', self.write('AT+COPS?')) # response format: +COPS: mode,format,"operator_name",x
         if copsMatch:
             return copsMatch.group(3)
 
-- 
2.43.0


From f9d637f3406bae1cc7dc0c6aa37f3083dcd3cb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:46 +0000
Subject: [PATCH 62/80] fix: revision reported the final result code of the
 modem as revision

---
 gsmmodem/modem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index f6cc31f..5e90b75 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -513,7 +513,8 @@ class GsmModem(SerialComms):
     def revision(self):
         """ :return: The modem's software revision, or None if not known/supported """
         try:
-            return self.write('AT+CGMR')[0]
+            response = self.write('AT+CGMR')
+            return response[0] if len(response) > 1 else None
         except CommandError:
             return None
     
-- 
2.43.0


From eef2443ce2b3d65c0055222b65a9cd4cdf100320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:01 +0000
Subject: [PATCH 63/80] fix: the terminal did not take keys on Python 3 and
 lost keys that were read together

---
 tools/gsmtermlib/terminal.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 4bc665d..33869fb 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -9,7 +9,7 @@ Note: The "Console" object was copied from pySerial's miniterm.py code
 """
 
 from __future__ import print_function
-import os, sys, threading, time
+import os, re, sys, threading, time
 import serial
 
 from gsmmodem.serial_comms import SerialComms
@@ -67,9 +67,12 @@ elif os.name == 'posix':
         DELETE = '{0}{1}{2}{3}'.format(chr(27), chr(91), chr(51), chr(126))
         HOME = '{0}{1}{2}'.format(chr(27), chr(79), chr(72))
         END = '{0}{1}{2}'.format(chr(27), chr(79), chr(70))
+        # A single key: an escape sequence or a character
+        KEY_REGEX = re.compile(r'\x1b(\[\[?[0-9;]*[@-~]|O.|.)?|.', re.DOTALL)
         
         def __init__(self):
             self.fd = sys.stdin.fileno()
+            self.keys = '' # Keys already read, but not handled yet
 
         def setup(self):
             self.old = termios.tcgetattr(self.fd)
@@ -84,10 +87,11 @@ elif os.name == 'posix':
 #            tty.setraw(self.fd)            
 
         def getkey(self):
-            c = os.read(self.fd, 4)
-            #print (len(c))
-            #for a in c:
-            #    print('rx:',ord(a))           
+            if len(self.keys) == 0:
+                keys = os.read(self.fd, 1024)
+                self.keys = keys if isinstance(keys, str) else keys.decode('utf-8', 'replace')
+            c = self.KEY_REGEX.match(self.keys).group(0) if len(self.keys) > 0 else ''
+            self.keys = self.keys[len(c):]
             return c
 
         def cleanup(self):
-- 
2.43.0


From 73b8d077378b7d999f4f504a2e8940d95dcf8ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:01 +0000
Subject: [PATCH 64/80] fix: an interrupt from the keyboard ended the raw
 terminal on Python 3

---
 tools/gsmtermlib/terminal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 33869fb..aa5b61e 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -151,7 +151,7 @@ class RawTerm(SerialComms):
                     c = console.getkey()                    
                 except KeyboardInterrupt:
                     print('kbint')
-                    c = serial.to_bytes([3])
+                    c = chr(3)
                 if c == self.EXIT_CHARACTER: 
                     self.stop()
                 elif c == '\n':
-- 
2.43.0


From 76dc6a9b66b93f011e5a92d08e4588e2c17e3382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:01 +0000
Subject: [PATCH 65/80] fix: the terminal began message entry although the
 modem had refused the message

---
 tools/gsmtermlib/terminal.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index aa5b61e..9d4e2d6 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -461,8 +461,13 @@ class GsmTerm(RawTerm):
                     except TimeoutException:
                         self._typingSms = False                        
                     else:
+                        if not response[-1].endswith('> '):
+                            # No prompt: the modem did not accept the command
+                            self._typingSms = False
+                            self._handleModemNotification(response)
+                            return
                         sys.stdout.write(self._color(self.COLOR_YELLOW, 'Type your SMS message, and press CTRL+Z to send it or press ESC to cancel.\n'))                        
-                        self.SMS_PROMPT = self._color(self.COLOR_GREEN, response[0])
+                        self.SMS_PROMPT = self._color(self.COLOR_GREEN, response[-1])
                     self._refreshInputPrompt()                        
                     return
                 self.serial.write(inputStr)
-- 
2.43.0


From f831f85e69c7ccc377f83508c6d028bc80827a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:01 +0000
Subject: [PATCH 66/80] fix: asking for the syntax of an unknown command ended
 the terminal

---
 tools/gsmtermlib/terminal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 9d4e2d6..eaa167f 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -578,7 +578,7 @@ class GsmTerm(RawTerm):
 
     def __printCommandSyntax(self, command):
         """ Command-completion helper method: print command syntax """
-        commandHelp = self.completion[command]
+        commandHelp = self.completion.get(command)
         if commandHelp != None and len(commandHelp) > 2:
             commandValues = commandHelp[2]
             #commandDefault = commandHelp[3]
-- 
2.43.0


From 10b1b724a5c20fc74645052f3656e2dfdb7f3cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:01 +0000
Subject: [PATCH 67/80] fix: completing a command typed in lower case or after
 blanks erased it

---
 tools/gsmtermlib/terminal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index eaa167f..8022cc2 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -563,7 +563,7 @@ class GsmTerm(RawTerm):
                     self._refreshInputPrompt(len(self.inputBuffer))
                 return
             else:
-                commonPrefix = self.completion.longestCommonPrefix(''.join(self.inputBuffer))
+                commonPrefix = self.completion.longestCommonPrefix(prefix)
                 self.inputBuffer = list(commonPrefix)
                 self.cursorPos = len(self.inputBuffer)
                 if matchLen > 20:
-- 
2.43.0


From 796dfa5d1a66b7da14ea3cdafe5d8d0cf7d91350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:01 +0000
Subject: [PATCH 68/80] fix: loading a file that is not a text file ended the
 terminal

---
 tools/gsmtermlib/terminal.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 8022cc2..27e899a 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -435,12 +435,14 @@ class GsmTerm(RawTerm):
                     filename = load[1].strip()
                     try:
                         f = open(filename, 'r')
-                    except IOError:
+                        try:
+                            atCommands = f.readlines()
+                        finally:
+                            f.close()
+                    except (IOError, UnicodeError):
                         sys.stdout.write('\n{0}\n'.format(self._color(self.COLOR_RED, 'File not found: "{0}"'.format(filename))))
                         self._refreshInputPrompt(len(self.inputBuffer))                        
                     else:
-                        atCommands = f.readlines()
-                        f.close()                    
                         sys.stdout.write('\n')
                         for atCommand in atCommands: 
                             atCommand = atCommand.strip()
-- 
2.43.0


From c2ffc69cfe8a46cf4fd3f940a718f5dc7a9cfe64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:01 +0000
Subject: [PATCH 69/80] fix: the text of a cancelled message stayed on the
 terminal's screen as if it was the next command

---
 tools/gsmtermlib/terminal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 27e899a..31ed501 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -305,6 +305,8 @@ class GsmTerm(RawTerm):
             self._typingSms = False
             self.inputBuffer = []
             self.cursorPos = 0
+            sys.stdout.write('\n')
+            self._refreshInputPrompt()
 
     def _exit(self):
         """ Shuts down the terminal (and app) """
-- 
2.43.0


From 09475e8ab192528cf406debdc05e9015c17146ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:01 +0000
Subject: [PATCH 70/80] fix: lines the modem sent during message entry replaced
 the terminal's prompt

---
 tools/gsmtermlib/terminal.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 31ed501..998a9e4 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -231,8 +231,6 @@ class GsmTerm(RawTerm):
     def _handleModemNotification(self, lines):
         # Clear any input prompt
         self._removeInputPrompt()
-        if self._typingSms:
-            self.PROMPT = self._color(self.COLOR_CYAN, lines[0])
         if lines[-1] == 'ERROR':
             print(self._color(self.COLOR_RED, '\n'.join(lines)))
         else:
-- 
2.43.0


From 9a6ff691392a65d68e35aa718d87f1842c0cd624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:01 +0000
Subject: [PATCH 71/80] fix: the end of the line stayed on the terminal's
 screen when completion made the line shorter

---
 tools/gsmtermlib/terminal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 998a9e4..206dd45 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -560,9 +560,10 @@ class GsmTerm(RawTerm):
                     self.__printCommandSyntax(prefix)
                 else:
                     # Complete only possible command
+                    clearLen = len(self.inputBuffer)
                     self.inputBuffer = list(matches[0])
                     self.cursorPos = len(self.inputBuffer)
-                    self._refreshInputPrompt(len(self.inputBuffer))
+                    self._refreshInputPrompt(clearLen)
                 return
             else:
                 commonPrefix = self.completion.longestCommonPrefix(prefix)
-- 
2.43.0


From 9e3005485249eb484c3c05b44c388039a7ec40b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:17 +0000
Subject: [PATCH 72/80] fix: sendsms could not read the message on Python 3

---
 tools/sendsms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/sendsms.py b/tools/sendsms.py
index 31c42bd..835db9e 100755
--- a/tools/sendsms.py
+++ b/tools/sendsms.py
@@ -12,6 +12,11 @@ import sys, logging
 from gsmmodem.modem import GsmModem, SentSms
 from gsmmodem.exceptions import TimeoutException, PinRequiredError, IncorrectPinError
 
+try:
+    raw_input # Python 2
+except NameError:
+    raw_input = input # Python 3
+
 def parseArgs():
     """ Argument parser for Python 2.7 and above """
     from argparse import ArgumentParser
-- 
2.43.0


From 2e7811113a3e0fc9d084b0d6860c08bc634f42d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:17 +0000
Subject: [PATCH 73/80] fix: the terminal's modes were not restored on exit on
 Python 3

---
 tools/gsmtermlib/terminal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 206dd45..acb1525 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -9,7 +9,7 @@ Note: The "Console" object was copied from pySerial's miniterm.py code
 """
 
 from __future__ import print_function
-import os, re, sys, threading, time
+import atexit, os, re, sys, threading, time
 import serial
 
 from gsmmodem.serial_comms import SerialComms
@@ -103,7 +103,7 @@ elif os.name == 'posix':
         console.cleanup()
 
     console.setup()
-    sys.exitfunc = cleanup_console      # terminal modes have to be restored on exit...
+    atexit.register(cleanup_console)    # terminal modes have to be restored on exit...
 
 else:
     raise NotImplementedError("Sorry no implementation for your platform (%s) available." % sys.platform)
-- 
2.43.0


From 5d3636443945964b4835bc61f0833e347ad81990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:17 +0000
Subject: [PATCH 74/80] fix: nothing could be written to or read from a
 pyserial port on Python 3

---
 gsmmodem/serial_comms.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index b059570..8020ceb 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -2,7 +2,7 @@
 
 """ Low-level serial communications handling """
 
-import sys, threading, logging
+import io, sys, threading, logging
 
 import re
 import serial # pyserial: http://pyserial.sourceforge.net
@@ -10,6 +10,22 @@ import serial # pyserial: http://pyserial.sourceforge.net
 from .exceptions import TimeoutException
 from . import compat # For Python 2.6 compatibility
 
+class TextPort(object):
+    """ Text interface to a serial port that reads and writes bytes (pyserial on Python 3) """
+
+    def __init__(self, port):
+        self.port = port
+
+    def read(self, size=1):
+        return self.port.read(size).decode('latin-1')
+
+    def write(self, data):
+        return self.port.write(data.encode('utf-8'))
+
+    def __getattr__(self, name):
+        return getattr(self.port, name)
+
+
 class SerialComms(object):
     """ Wraps all low-level serial communications (actual read/write operations) """
     
@@ -47,6 +63,8 @@ class SerialComms(object):
     def connect(self):
         """ Connects to the device and starts the read thread """                
         self.serial = serial.Serial(port=self.port, baudrate=self.baudrate, timeout=self.timeout)
+        if str is not bytes and isinstance(self.serial, io.RawIOBase):
+            self.serial = TextPort(self.serial)
         # Start read thread
         self.alive = True 
         self.rxThread = threading.Thread(target=self._readLoop)
-- 
2.43.0


From 33e8f827dc3df890dc651b124ed34559ed599a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:35 +0000
Subject: [PATCH 75/80] fix: do not pass on notification lines left over from
 an earlier connection

---
 gsmmodem/serial_comms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index 8020ceb..4e61995 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -65,6 +65,7 @@ class SerialComms(object):
         self.serial = serial.Serial(port=self.port, baudrate=self.baudrate, timeout=self.timeout)
         if str is not bytes and isinstance(self.serial, io.RawIOBase):
             self.serial = TextPort(self.serial)
+        self._notification = [] # Lines left over from an earlier connection
         # Start read thread
         self.alive = True 
         self.rxThread = threading.Thread(target=self._readLoop)
-- 
2.43.0


From 955957f6f13ed44aa7c9d783d9226a9f99a08cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:35 +0000
Subject: [PATCH 76/80] fix: forget the call handling of an earlier modem when
 connecting

---
 gsmmodem/modem.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 5e90b75..7feb9b8 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -178,6 +178,12 @@ class GsmModem(SerialComms):
         :raise IncorrectPinError: if the specified PIN is incorrect
         """
         self.log.info('Connecting to modem on port %s at %dbps', self.port, self.baudrate)        
+        # Nothing is known about the call handling of this modem yet (it may be a different one than before)
+        self._dtmfCommandBase = '+VTS='
+        self._waitForAtdResponse = True
+        self._waitForCallInitUpdate = True
+        self._callStatusUpdates = []
+        self._mustPollCallStatus = False
         super(GsmModem, self).connect()
         # Send some initialization commands to the modem
         try:        
-- 
2.43.0


From 11fa6915189c08efc02dcc51597293bc93be2179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:35 +0000
Subject: [PATCH 77/80] fix: forget the message storages of an earlier modem
 when connecting

---
 gsmmodem/modem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 7feb9b8..1b4af6a 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -184,6 +184,10 @@ class GsmModem(SerialComms):
         self._waitForCallInitUpdate = True
         self._callStatusUpdates = []
         self._mustPollCallStatus = False
+        # ...nor about its message storages
+        self._smsMemReadDelete = None
+        self._smsMemWrite = None
+        self._smsReadSupported = True
         super(GsmModem, self).connect()
         # Send some initialization commands to the modem
         try:        
-- 
2.43.0


From bd133047b00eeb0ca741928167556fa7f68f78da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:35 +0000
Subject: [PATCH 78/80] fix: end the calls and USSD sessions of an earlier
 connection when connecting

---
 gsmmodem/modem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 1b4af6a..0c2cd5f 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -178,6 +178,11 @@ class GsmModem(SerialComms):
         :raise IncorrectPinError: if the specified PIN is incorrect
         """
         self.log.info('Connecting to modem on port %s at %dbps', self.port, self.baudrate)        
+        # Calls and USSD sessions of an earlier connection have ended with it
+        with self._stateLock:
+            for call in list(self.activeCalls.values()):
+                call._setState(answered=False, active=False)
+            self._endUssdSession()
         # Nothing is known about the call handling of this modem yet (it may be a different one than before)
         self._dtmfCommandBase = '+VTS='
         self._waitForAtdResponse = True
-- 
2.43.0


From 2d132b2dcaa1e29fb66654a0ce2db8d6bbdcdc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:35 +0000
Subject: [PATCH 79/80] fix: do not write the SMSC number read from one modem
 into the next

---
 gsmmodem/modem.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 0c2cd5f..7fa57e4 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -163,6 +163,7 @@ class GsmModem(SerialComms):
         self._writeWait = 0 # Time (in seconds to wait after writing a command (adjusted when 515 errors are detected)
         self._smsTextMode = False # Storage variable for the smsTextMode property
         self._smscNumber = None # Default SMSC number
+        self._userSmscNumber = None # Default SMSC number set by the user; applied to every modem connected to
         self._smsRef = 0 # Sent SMS reference counter
         self._smsMemReadDelete = None # Preferred message storage memory for reads/deletes (<mem1> parameter used for +CPMS)
         self._smsMemWrite = None # Preferred message storage memory for writes (<mem2> parameter used for +CPMS)
@@ -318,6 +319,7 @@ class GsmModem(SerialComms):
         # SMS setup
         self.write('AT+CMGF={0}'.format(1 if self._smsTextMode else 0)) # Switch to text or PDU mode for SMS messages
         self._compileSmsRegexes()
+        self._smscNumber = self._userSmscNumber # A number read from an earlier modem is not for this one
         if self._smscNumber != None:
             self.write('AT+CSCA="{0}"'.format(self._smscNumber)) # Set default SMSC number
             currentSmscNumber = self._smscNumber
@@ -337,7 +339,7 @@ class GsmModem(SerialComms):
             except CommandError:
                 smscUnchanged = False
             if not smscUnchanged:
-                self.smsc = currentSmscNumber
+                self._setSmsc(currentSmscNumber)
 
         # Set message storage, but first check what the modem supports - example response: +CPMS: (("SM","BM","SR"),("SM"))
         try:
@@ -622,6 +624,11 @@ class GsmModem(SerialComms):
     @smsc.setter
     def smsc(self, smscNumber):
         """ Set the default SMSC number to use when sending SMS messages """
+        self._setSmsc(smscNumber)
+        self._userSmscNumber = smscNumber
+
+    def _setSmsc(self, smscNumber):
+        """ Writes the default SMSC number to the modem (if connected) unless it is the one already in use """
         if smscNumber != self._smscNumber:
             if self.alive:
                 self.write('AT+CSCA="{0}"'.format(smscNumber))
-- 
2.43.0


From 1fc4f3ba06e65752420aae068a0950023ed5fe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:05 +0000
Subject: [PATCH 80/80] fix: do not take a call hung up meanwhile for the one
 being polled for

---
 gsmmodem/modem.py | 71 ++++++++++++++++++++++++-----------------------
 1 file changed, 36 insertions(+), 35 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 7fa57e4..4693efd 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1413,41 +1413,42 @@ class GsmModem(SerialComms):
                 timeLeft -= 0.5
             elif not call.active: # Hung up meanwhile
                 break
-            try:
-                response = self.write('AT+CLCC')
-            except TimeoutException:
-                # Can happend if the call was ended during our time.sleep() call
-                response = []
-            except CommandError as error:
-                self.log.debug('Unable to poll call status: %s', error)
-                continue
-            # Outgoing calls: maps call ID to state and type
-            callStates = {}
-            for line in response:
-                clcc = self._pollCallStatusRegex.match(line)
-                if clcc and int(clcc.group(2)) == 0: # Outgoing call
-                    callStates[int(clcc.group(1))] = int(clcc.group(3)), int(clcc.group(4))
-            actions = []
-            with self._stateLock:
-                if expectedState == 0: # waiting for call initiated
-                    if self._dialEvent is not dialEvent:
-                        break # dial() has given up
-                    for callId, (stat, callType) in sorted(callStates.items()):
-                        otherCall = self.activeCalls.get(callId)
-                        if stat in (0, 2, 3) and (otherCall == None or isinstance(otherCall, IncomingCall) or (otherCall.answered and stat != 0)): # Active, dialing or ringing ("alerting")
-                            actions.extend(self._handleCallInitiated(None, callId, callType))
-                            call = self._dialResponse
-                            expectedState = 1 # Now wait for call answer
-                            break
-                if call != None:
-                    if call.id not in callStates:
-                        # The call is no longer active: it has ended, or was rejected
-                        callDone = True
-                        if call.active:
-                            actions.extend(self._handleCallEnded(None, callId=call.id))
-                    elif expectedState == 1 and callStates[call.id][0] == 0 and call.active: # Call active
-                        actions.extend(self._handleCallAnswered(None, call.id))
-                        expectedState = 2 # Now wait for call hangup
+            with self._txLock: # a call that is hung up meanwhile is not in this list any more
+                try:
+                    response = self.write('AT+CLCC')
+                except TimeoutException:
+                    # Can happend if the call was ended during our time.sleep() call
+                    response = []
+                except CommandError as error:
+                    self.log.debug('Unable to poll call status: %s', error)
+                    continue
+                # Outgoing calls: maps call ID to state and type
+                callStates = {}
+                for line in response:
+                    clcc = self._pollCallStatusRegex.match(line)
+                    if clcc and int(clcc.group(2)) == 0: # Outgoing call
+                        callStates[int(clcc.group(1))] = int(clcc.group(3)), int(clcc.group(4))
+                actions = []
+                with self._stateLock:
+                    if expectedState == 0: # waiting for call initiated
+                        if self._dialEvent is not dialEvent:
+                            break # dial() has given up
+                        for callId, (stat, callType) in sorted(callStates.items()):
+                            otherCall = self.activeCalls.get(callId)
+                            if stat in (0, 2, 3) and (otherCall == None or isinstance(otherCall, IncomingCall) or (otherCall.answered and stat != 0)): # Active, dialing or ringing ("alerting")
+                                actions.extend(self._handleCallInitiated(None, callId, callType))
+                                call = self._dialResponse
+                                expectedState = 1 # Now wait for call answer
+                                break
+                    if call != None:
+                        if call.id not in callStates:
+                            # The call is no longer active: it has ended, or was rejected
+                            callDone = True
+                            if call.active:
+                                actions.extend(self._handleCallEnded(None, callId=call.id))
+                        elif expectedState == 1 and callStates[call.id][0] == 0 and call.active: # Call active
+                            actions.extend(self._handleCallAnswered(None, call.id))
+                            expectedState = 2 # Now wait for call hangup
             self._startActions(actions)
 
 
-- 
2.43.0


From 17425b7d331cf46650f9837f24861c167cd26034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 01/65] fix: refuse texts that are not numbers for bit
 parameters

---
 parameter/BitParameterType.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/parameter/BitParameterType.cpp b/parameter/BitParameterType.cpp
index 14421f1..128b70b 100644
--- a/parameter/BitParameterType.cpp
+++ b/parameter/BitParameterType.cpp
@@ -29,11 +29,11 @@
  */
 #include "BitParameterType.h"
 #include "BitParameter.h"
-#include <stdlib.h>
 #include <sstream>
 #include "ParameterAccessContext.h"
 #include "BitParameterBlockType.h"
 #include "Utility.h"
+#include "convert.hpp"
 
 #define base CTypeElement
 
@@ -123,7 +123,15 @@ bool CBitParameterType::toBlackboard(const string &strValue, uint64_t &uiValue,
                                      CParameterAccessContext &parameterAccessContext) const
 {
     // Get value
-    uint64_t uiConvertedValue = strtoull(strValue.c_str(), nullptr, 0);
+    uint64_t uiConvertedValue = 0;
+
+    if (!convertTo(strValue, uiConvertedValue)) {
+
+        parameterAccessContext.setError("Impossible to convert value " + strValue + " for " +
+                                        getKind());
+
+        return false;
+    }
 
     if (uiConvertedValue > _uiMax) {
 
-- 
2.43.0


From 746bf6ad86bf0d98865c4c55de44043af7d88be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 02/65] fix: print floating point parameters with enough digits
 to read them back

---
 parameter/FloatingPointParameterType.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parameter/FloatingPointParameterType.cpp b/parameter/FloatingPointParameterType.cpp
index 44de9e2..d3fe8af 100644
--- a/parameter/FloatingPointParameterType.cpp
+++ b/parameter/FloatingPointParameterType.cpp
@@ -222,7 +222,18 @@ bool CFloatingPointParameterType::fromBlackboard(
         // Move from "raw memory" value space to real space
         auto fValue = utility::binaryCopy<float>(uiValue);
 
-        ostrStream << fValue;
+        // Use the first precision which is enough to get the very same value back
+        for (int precision = std::numeric_limits<float>::digits10;
+             precision <= std::numeric_limits<float>::max_digits10; precision++) {
+
+            ostrStream.str("");
+            ostrStream << std::setprecision(precision) << fValue;
+
+            float fReadBack;
+            if (convertTo(ostrStream.str(), fReadBack) && fReadBack == fValue) {
+                break;
+            }
+        }
     }
 
     strValue = ostrStream.str();
-- 
2.43.0


From 5ded8da07644d4d27b350b2894eeb1179c205795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 03/65] fix: leave array parameters untouched when one of the
 values is refused

---
 parameter/ArrayParameter.cpp | 66 ++++++++++++++++++------------------
 parameter/ArrayParameter.h   |  4 +--
 2 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/parameter/ArrayParameter.cpp b/parameter/ArrayParameter.cpp
index 91ea448..4cd2942 100644
--- a/parameter/ArrayParameter.cpp
+++ b/parameter/ArrayParameter.cpp
@@ -266,14 +266,14 @@ bool CArrayParameter::setValues(size_t uiStartIndex, size_t offset, const string
         return false;
     }
 
-    // Process
-    size_t valueIndex;
-    size_t size = getSize();
-    offset += uiStartIndex * size;
+    // Convert all values before writing any, so that a refused one leaves the array untouched
+    std::vector<uint32_t> convertedValues(nbValues);
 
-    for (valueIndex = 0; valueIndex < nbValues; valueIndex++) {
+    for (size_t valueIndex = 0; valueIndex < nbValues; valueIndex++) {
 
-        if (!doSet(astrValues[valueIndex], offset, parameterAccessContext)) {
+        if (!static_cast<const CParameterType *>(getTypeElement())
+                 ->toBlackboard(astrValues[valueIndex], convertedValues[valueIndex],
+                                parameterAccessContext)) {
 
             // Append parameter path to error
             parameterAccessContext.appendToError(" " + getPath() + "/" +
@@ -281,10 +281,27 @@ bool CArrayParameter::setValues(size_t uiStartIndex, size_t offset, const string
 
             return false;
         }
+    }
+
+    writeValues(convertedValues, offset + uiStartIndex * getSize(), parameterAccessContext);
+
+    return true;
+}
+
+// Write already converted values
+void CArrayParameter::writeValues(const std::vector<uint32_t> &values, size_t offset,
+                                  CParameterAccessContext &parameterAccessContext) const
+{
+    CParameterBlackboard *pBlackboard = parameterAccessContext.getParameterBlackboard();
+    size_t size = getSize();
+
+    for (uint32_t uiData : values) {
+
+        // Beware this code works on little endian architectures only!
+        pBlackboard->writeInteger(&uiData, size, offset);
 
         offset += size;
     }
-    return true;
 }
 
 // Common get value processing
@@ -353,22 +370,25 @@ bool CArrayParameter::setValues(const std::vector<type> &values,
                                 CParameterAccessContext &parameterAccessContext) const
 {
     size_t nbValues = getArrayLength();
-    size_t size = getSize();
-    size_t offset = getOffset();
 
     assert(values.size() == nbValues);
 
-    // Process
+    // Convert all values before writing any, so that a refused one leaves the array untouched
+    std::vector<uint32_t> convertedValues(nbValues);
+
     for (size_t valueIndex = 0; valueIndex < nbValues; valueIndex++) {
 
-        if (!doSet(values[valueIndex], offset, parameterAccessContext)) {
+        const type value = values[valueIndex];
+
+        if (!static_cast<const CParameterType *>(getTypeElement())
+                 ->toBlackboard(value, convertedValues[valueIndex], parameterAccessContext)) {
 
             return false;
         }
-
-        offset += size;
     }
 
+    writeValues(convertedValues, getOffset(), parameterAccessContext);
+
     return true;
 }
 
@@ -397,26 +417,6 @@ bool CArrayParameter::getValues(std::vector<type> &values,
     return true;
 }
 
-template <typename type>
-bool CArrayParameter::doSet(type value, size_t offset,
-                            CParameterAccessContext &parameterAccessContext) const
-{
-    uint32_t uiData;
-
-    if (!static_cast<const CParameterType *>(getTypeElement())
-             ->toBlackboard(value, uiData, parameterAccessContext)) {
-
-        return false;
-    }
-    // Write blackboard
-    CParameterBlackboard *pBlackboard = parameterAccessContext.getParameterBlackboard();
-
-    // Beware this code works on little endian architectures only!
-    pBlackboard->writeInteger(&uiData, getSize(), offset);
-
-    return true;
-}
-
 template <typename type>
 bool CArrayParameter::doGet(type &value, size_t offset,
                             CParameterAccessContext &parameterAccessContext) const
diff --git a/parameter/ArrayParameter.h b/parameter/ArrayParameter.h
index 6410dbc..6cd9524 100644
--- a/parameter/ArrayParameter.h
+++ b/parameter/ArrayParameter.h
@@ -91,6 +91,8 @@ private:
     template <typename type>
     bool accessValues(std::vector<type> &values, bool bSet,
                       CParameterAccessContext &parameterAccessContext) const;
+    void writeValues(const std::vector<uint32_t> &values, size_t offset,
+                     CParameterAccessContext &parameterAccessContext) const;
     template <typename type>
     bool setValues(const std::vector<type> &values,
                    CParameterAccessContext &parameterAccessContext) const;
@@ -98,7 +100,5 @@ private:
     bool getValues(std::vector<type> &values,
                    CParameterAccessContext &parameterAccessContext) const;
     template <typename type>
-    bool doSet(type value, size_t offset, CParameterAccessContext &parameterAccessContext) const;
-    template <typename type>
     bool doGet(type &value, size_t offset, CParameterAccessContext &parameterAccessContext) const;
 };
-- 
2.43.0


From 47aca59901e89062435f0788ec7ea0143305e46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 04/65] fix: format 32 bit values without shifting by their
 whole width

---
 parameter/ParameterType.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parameter/ParameterType.cpp b/parameter/ParameterType.cpp
index 5472f27..f8c3bc4 100644
--- a/parameter/ParameterType.cpp
+++ b/parameter/ParameterType.cpp
@@ -203,7 +203,12 @@ uint32_t CParameterType::makeEncodable(uint32_t uiData) const
 {
     size_t sizeInBits = getSize() * 8;
 
-    uint32_t uiMask = (1 << sizeInBits) - 1;
+    if (getSize() == sizeof(uiData)) {
+        // Prevent inappropriate shifts
+        return uiData;
+    }
+
+    uint32_t uiMask = (1U << sizeInBits) - 1;
 
     return uiData & uiMask;
 }
-- 
2.43.0


From e51e3e705019427a18f764e52c77c775d473537e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:50 +0000
Subject: [PATCH 05/65] fix: accept in raw value space the very encodings an
 enumeration can hold

---
 parameter/EnumParameterType.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parameter/EnumParameterType.cpp b/parameter/EnumParameterType.cpp
index 468b6c6..e74788e 100644
--- a/parameter/EnumParameterType.cpp
+++ b/parameter/EnumParameterType.cpp
@@ -97,8 +97,14 @@ bool CEnumParameterType::toBlackboard(const string &strValue, uint32_t &uiValue,
 {
     int32_t iParsedUserValue = 0;
 
+    uint32_t uiEncoded = 0;
+
     // Try to read the user-provided string as an integer
-    if (not convertTo(strValue, iParsedUserValue)) {
+    if (parameterAccessContext.valueSpaceIsRaw() && convertTo(strValue, uiEncoded) &&
+        isEncodable(uiEncoded, false)) {
+        // Encoded value, as displayed in raw value space
+        iParsedUserValue = static_cast<int32_t>(uiEncoded);
+    } else if (not convertTo(strValue, iParsedUserValue)) {
         // If it fails to parse as an integer, first try to convert it from
         // lexical to numerical space.
         int32_t iNumerical;
@@ -167,7 +173,8 @@ bool CEnumParameterType::toBlackboard(int32_t userValue, uint32_t &value,
                                       CParameterAccessContext &parameterAccessContext) const
 {
     // Take care of format
-    if (parameterAccessContext.valueSpaceIsRaw()) {
+    if (parameterAccessContext.valueSpaceIsRaw() &&
+        isEncodable(static_cast<uint32_t>(userValue), false)) {
         signExtend(userValue);
     }
 
-- 
2.43.0


From 7b9120100485c39a8f8b376203b4fcc4952f391a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:06 +0000
Subject: [PATCH 06/65] fix: pad the hexadecimal digits of raw floating point
 values, not their prefix

---
 parameter/FloatingPointParameterType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parameter/FloatingPointParameterType.cpp b/parameter/FloatingPointParameterType.cpp
index d3fe8af..c7e88af 100644
--- a/parameter/FloatingPointParameterType.cpp
+++ b/parameter/FloatingPointParameterType.cpp
@@ -212,7 +212,7 @@ bool CFloatingPointParameterType::fromBlackboard(
 
         if (parameterAccessContext.outputRawFormatIsHex()) {
 
-            ostrStream << std::showbase << std::hex << std::setw(static_cast<int>(getSize() * 2))
+            ostrStream << "0x" << std::hex << std::setw(static_cast<int>(getSize() * 2))
                        << std::setfill('0');
         }
 
-- 
2.43.0


From 0c4710674244ab6496262a84f404b64c8cff1597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 07/65] fix: do not overflow when checking the last bit of an
 inclusive criterion

---
 parameter/SelectionCriterionType.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parameter/SelectionCriterionType.cpp b/parameter/SelectionCriterionType.cpp
index d97d18b..431f5bc 100644
--- a/parameter/SelectionCriterionType.cpp
+++ b/parameter/SelectionCriterionType.cpp
@@ -55,7 +55,8 @@ bool CSelectionCriterionType::addValuePair(int iValue, const std::string &strVal
                                            std::string &strError)
 {
     // Check 1 bit set only for inclusive types
-    if (_bInclusive && (!iValue || (iValue & (iValue - 1)))) {
+    const auto uiValue = static_cast<unsigned int>(iValue);
+    if (_bInclusive && (!uiValue || (uiValue & (uiValue - 1)))) {
 
         std::ostringstream error;
         error << "Rejecting value pair association: 0x" << std::hex << iValue << " - " << strValue
-- 
2.43.0


From c06cc79ef44f03c1c92ba98d11b397b2aacabb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 08/65] fix: refuse numbers preceded by a form feed

---
 utility/convert.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utility/convert.hpp b/utility/convert.hpp
index fcf8e03..8287594 100644
--- a/utility/convert.hpp
+++ b/utility/convert.hpp
@@ -122,7 +122,7 @@ static inline bool convertTo(const std::string &str, T &result)
      * with this type, thus that the result is undefined. */
     static_assert(ConvertionAllowed<T>::value, "convertTo does not support this conversion");
 
-    if (str.find_first_of(std::string("\r\n\t\v ")) != std::string::npos) {
+    if (str.find_first_of(std::string("\r\n\t\v\f ")) != std::string::npos) {
         return false;
     }
 
-- 
2.43.0


From 9c29d7f4e5ec9a92f136451aafc44f38f1ed0122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 09/65] fix: store the bytes given to setElementBytes instead
 of writing past an empty vector

---
 parameter/ParameterMgr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index debf81d..b0bfb4a 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -92,6 +92,7 @@
 #include <stdexcept>
 #include <mutex>
 #include <iomanip>
+#include <iterator>
 #include "convert.hpp"
 
 #define base CElement
@@ -1496,7 +1497,7 @@ CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::setElementBytesComm
     auto last = remoteCommand.getArguments().cend();
 
     try {
-        std::transform(first, last, begin(bytes), [](decltype(*first) input) {
+        std::transform(first, last, std::back_inserter(bytes), [](decltype(*first) input) {
             uint8_t byte;
 
             if (!convertTo(input, byte)) {
-- 
2.43.0


From ea29a7b17fe4b134ed41c245ca944de90980648f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 10/65] fix: refuse empty array accesses to scalar parameters
 through handles

---
 parameter/ElementHandle.cpp       | 8 ++++----
 parameter/include/ElementHandle.h | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/parameter/ElementHandle.cpp b/parameter/ElementHandle.cpp
index ecf1bcf..cd636a3 100644
--- a/parameter/ElementHandle.cpp
+++ b/parameter/ElementHandle.cpp
@@ -196,7 +196,7 @@ bool ElementHandle::setAsBytes(const std::vector<uint8_t> &bytesValue, std::stri
 template <class T>
 bool ElementHandle::setAs(const T value, string &error) const
 {
-    if (not checkSetValidity(getUserInputSize(value), error)) {
+    if (not checkSetValidity(isVector<T>::value, getUserInputSize(value), error)) {
         return false;
     }
     // Safe downcast thanks to isParameter check in checkSetValidity
@@ -361,10 +361,10 @@ bool ElementHandle::checkGetValidity(bool asArray, string &error) const
 }
 
 // Access validity
-bool ElementHandle::checkSetValidity(size_t arrayLength, string &error) const
+bool ElementHandle::checkSetValidity(bool asArray, size_t arrayLength, string &error) const
 {
     // Settings a parameter necessitates the right to get it
-    if (not checkGetValidity(arrayLength != 0, error)) {
+    if (not checkGetValidity(asArray, error)) {
         return false;
     }
 
@@ -374,7 +374,7 @@ bool ElementHandle::checkSetValidity(size_t arrayLength, string &error) const
         return false;
     }
 
-    if (arrayLength && (arrayLength != getArrayLength())) {
+    if (asArray && (arrayLength != getArrayLength())) {
 
         using std::to_string;
         error = "Array length mismatch for \"" + getPath() + "\", expected: " +
diff --git a/parameter/include/ElementHandle.h b/parameter/include/ElementHandle.h
index 7d0888a..f75a850 100644
--- a/parameter/include/ElementHandle.h
+++ b/parameter/include/ElementHandle.h
@@ -246,7 +246,7 @@ private:
      *
      * @return true if the parameter value can be retrieved, false otherwise.
      */
-    bool checkSetValidity(size_t arrayLength, std::string &error) const;
+    bool checkSetValidity(bool asArray, size_t arrayLength, std::string &error) const;
 
     /** Check that the parameter value can be retrieved.
      *
-- 
2.43.0


From 52db43898679a530f722475f6c7c6cde42821792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 11/65] fix: do not overflow when adapting real values beyond
 the integer range

---
 parameter/ParameterAdaptation.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parameter/ParameterAdaptation.cpp b/parameter/ParameterAdaptation.cpp
index 67b4bca..fe5d3ee 100644
--- a/parameter/ParameterAdaptation.cpp
+++ b/parameter/ParameterAdaptation.cpp
@@ -75,6 +75,16 @@ bool CParameterAdaptation::fromXml(const CXmlElement &xmlElement,
 // Conversions
 int64_t CParameterAdaptation::fromUserValue(double dValue) const
 {
+    // Far beyond any parameter range, and safe from overflow once offset
+    const int64_t limit = int64_t(1) << 62;
+
+    if (dValue >= static_cast<double>(limit)) {
+        return limit;
+    }
+    if (not(dValue > -static_cast<double>(limit))) {
+        // Including "not a number"
+        return -limit;
+    }
     return (int64_t)dValue + _iOffset;
 }
 
-- 
2.43.0


From da6428ccf9c2406da61dc7556c5a37c1f3db2f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:20 +0000
Subject: [PATCH 12/65] fix: report that an element without children could not
 be split

---
 parameter/ConfigurableDomains.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/parameter/ConfigurableDomains.cpp b/parameter/ConfigurableDomains.cpp
index 35674fd..faceb7c 100644
--- a/parameter/ConfigurableDomains.cpp
+++ b/parameter/ConfigurableDomains.cpp
@@ -310,9 +310,7 @@ bool CConfigurableDomains::split(const string &domainName, CConfigurableElement
         return false;
     }
     // Delegate
-    domain->split(element, infos);
-
-    return true;
+    return domain->split(element, infos);
 }
 
 void CConfigurableDomains::listAssociatedElements(string &strResult) const
-- 
2.43.0


From adcb949763fdd464bd00f71892b8166a42687a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:20 +0000
Subject: [PATCH 13/65] fix: keep the element sequence when a new one is
 refused

---
 parameter/DomainConfiguration.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/parameter/DomainConfiguration.cpp b/parameter/DomainConfiguration.cpp
index f5d7182..60171e4 100644
--- a/parameter/DomainConfiguration.cpp
+++ b/parameter/DomainConfiguration.cpp
@@ -229,12 +229,11 @@ bool CDomainConfiguration::setElementSequence(const std::vector<string> &newElem
                                               string &error)
 {
     std::vector<string> elementSequenceSet;
-    auto insertLocation = begin(mAreaConfigurationList);
 
+    // Check the whole sequence first so as not to alter the order if it can not be accepted
     for (const std::string &elementPath : newElementSequence) {
 
-        auto areaConfiguration = findAreaConfigurationByPath(elementPath);
-        if (areaConfiguration == end(mAreaConfigurationList)) {
+        if (findAreaConfigurationByPath(elementPath) == end(mAreaConfigurationList)) {
 
             error = "Element " + elementPath + " not found in domain";
 
@@ -246,6 +245,13 @@ bool CDomainConfiguration::setElementSequence(const std::vector<string> &newElem
             return false;
         }
         elementSequenceSet.push_back(elementPath);
+    }
+
+    auto insertLocation = begin(mAreaConfigurationList);
+
+    for (const std::string &elementPath : newElementSequence) {
+
+        auto areaConfiguration = findAreaConfigurationByPath(elementPath);
         // Take into account the new configuration order by moving the configuration associated to
         // the element to the n-th position of the configuration list.
         // It will result in prepending to the configuration list wit the configuration of all
-- 
2.43.0


From 1ee13d9a984ff898bd9ebfa669a0edee0f104267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:20 +0000
Subject: [PATCH 14/65] fix: refuse rules with misplaced delimiters or leftover
 text

---
 parameter/RuleParser.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/parameter/RuleParser.cpp b/parameter/RuleParser.cpp
index e069cd1..f585cc0 100644
--- a/parameter/RuleParser.cpp
+++ b/parameter/RuleParser.cpp
@@ -162,7 +162,17 @@ bool CRuleParser::iterate(string &strError)
         ((delimiter = _strApplicationRule.find_first_of(_acDelimiters[_eStatus], _uiCurrentPos)) !=
          string::npos)) {
 
-        switch (_strApplicationRule[delimiter]) {
+        const char foundDelimiter = _strApplicationRule[delimiter];
+
+        // Only rules may come before a delimiter that closes or separates them
+        if ((foundDelimiter == '}' || foundDelimiter == ',') && delimiter != _uiCurrentPos) {
+
+            strError = "Syntax error";
+
+            return false;
+        }
+
+        switch (foundDelimiter) {
 
         case '{':
             _eStatus = EBeginCompoundRule;
@@ -187,6 +197,14 @@ bool CRuleParser::iterate(string &strError)
             break;
         case ',':
             _eStatus = EContinue;
+
+            // There can be only one root rule
+            if (!_currentDeepness) {
+
+                strError = "Syntax error";
+
+                return false;
+            }
             break;
         }
         // New pos
@@ -249,7 +267,10 @@ bool CRuleParser::next(string &strNext, string &strError)
         _uiCurrentPos = delimiter;
     }
 
-    if ((delimiter = _strApplicationRule.find_first_of("{} ,", _uiCurrentPos)) == string::npos) {
+    // There must be a word, and something after it
+    delimiter = _strApplicationRule.find_first_of("{} ,", _uiCurrentPos);
+
+    if (delimiter == string::npos || delimiter == _uiCurrentPos) {
 
         strError = "Syntax error";
 
-- 
2.43.0


From 43d4eae37b6ddbb03405c59f2d008309b33c2c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:20 +0000
Subject: [PATCH 15/65] fix: print rules that match several values of an
 inclusive criterion

---
 parameter/SelectionCriterionRule.cpp | 26 ++++++++++++++++----------
 parameter/SelectionCriterionRule.h   |  3 +++
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/parameter/SelectionCriterionRule.cpp b/parameter/SelectionCriterionRule.cpp
index 8c22045..8c97a83 100644
--- a/parameter/SelectionCriterionRule.cpp
+++ b/parameter/SelectionCriterionRule.cpp
@@ -110,13 +110,23 @@ bool CSelectionCriterionRule::parse(CRuleParser &ruleParser, string &strError)
 // Dump
 string CSelectionCriterionRule::dump() const
 {
-    // Value
-    string value;
-    _pSelectionCriterion->getCriterionType()->getLiteralValue(_iMatchValue, value);
-
     // "<Name> <Verb> <Value>"
     return string(_pSelectionCriterion->getName()) + " " +
-           _astMatchesWhen[_eMatchesWhen].pcMatchesWhen + " " + value;
+           _astMatchesWhen[_eMatchesWhen].pcMatchesWhen + " " + getMatchValueText();
+}
+
+// Text of the value to match
+string CSelectionCriterionRule::getMatchValueText() const
+{
+    auto pCriterionType = _pSelectionCriterion->getCriterionType();
+
+    string strValue;
+    if (!pCriterionType->getLiteralValue(_iMatchValue, strValue)) {
+
+        // Several values of an inclusive criterion: no literal stands for all of them
+        strValue = pCriterionType->getFormattedState(_iMatchValue);
+    }
+    return strValue;
 }
 
 // Rule check
@@ -206,11 +216,7 @@ void CSelectionCriterionRule::toXml(CXmlElement &xmlElement, CXmlSerializingCont
     xmlElement.setAttribute("MatchesWhen", _astMatchesWhen[_eMatchesWhen].pcMatchesWhen);
 
     // Set Value
-    string strValue;
-
-    _pSelectionCriterion->getCriterionType()->getLiteralValue(_iMatchValue, strValue);
-
-    xmlElement.setAttribute("Value", strValue);
+    xmlElement.setAttribute("Value", getMatchValueText());
 }
 
 // XML MatchesWhen attribute parsing
diff --git a/parameter/SelectionCriterionRule.h b/parameter/SelectionCriterionRule.h
index 7dac343..8c81a74 100644
--- a/parameter/SelectionCriterionRule.h
+++ b/parameter/SelectionCriterionRule.h
@@ -79,6 +79,9 @@ protected:
     std::string logValue(utility::ErrorContext &errorContext) const override;
 
 private:
+    /** @return the text of the value to match, as parsing accepts it. */
+    std::string getMatchValueText() const;
+
     // XML MatchesWhen attribute parsing
     bool setMatchesWhen(const std::string &strMatchesWhen, std::string &strError);
 
-- 
2.43.0


From 1f02e5d510345543e3b76fe312062f06cc0c65b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:20 +0000
Subject: [PATCH 16/65] fix: read configuration parameters from the
 configuration even if it is the last applied

---
 parameter/ParameterMgr.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index b0bfb4a..0c49249 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -2068,16 +2068,13 @@ bool CParameterMgr::accessConfigurationValue(const string &strDomain,
 
     /// If the Configuration is the last one applied, update the Main Blackboard as well
 
-    if (bIsLastApplied) {
+    if (bSet && bIsLastApplied) {
 
         // Define Main context
         parameterAccessContext.setParameterBlackboard(_pMainParameterBlackboard);
 
         // Activate the auto synchronization with the hardware
-        if (bSet) {
-
-            parameterAccessContext.setAutoSync(_bAutoSyncOn);
-        }
+        parameterAccessContext.setAutoSync(_bAutoSyncOn);
 
         // Access Value in the Main Blackboard
         return accessValue(parameterAccessContext, strPath, strValue, bSet, strError);
-- 
2.43.0


From 75bd4c82ea5eb2689efaa42bb7863b51d2edb74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:35 +0000
Subject: [PATCH 17/65] fix: validate a domain imported alone, as importing all
 domains does

---
 parameter/ParameterMgr.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index 0c49249..3e9cad6 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -2583,6 +2583,9 @@ bool CParameterMgr::importSingleDomainXml(const string &xmlSource, bool overwrit
         return false;
     }
 
+    // Validate the domain after XML import
+    standaloneDomain->validate(_pMainParameterBlackboard);
+
     // ownership has been transfered to the ConfigurableDomains object
     standaloneDomain.release();
     return true;
-- 
2.43.0


From 2794f1c7bf699a5fc613c9cdf8640b09bcafb182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 18/65] fix: default floating point parameters to a value of
 their range

---
 parameter/FloatingPointParameterType.cpp | 15 +++++++++++++++
 parameter/FloatingPointParameterType.h   |  2 ++
 2 files changed, 17 insertions(+)

diff --git a/parameter/FloatingPointParameterType.cpp b/parameter/FloatingPointParameterType.cpp
index c7e88af..8978476 100644
--- a/parameter/FloatingPointParameterType.cpp
+++ b/parameter/FloatingPointParameterType.cpp
@@ -49,6 +49,21 @@ string CFloatingPointParameterType::getKind() const
     return "FloatingPointParameter";
 }
 
+// Default value: the one of the admitted range which is the closest to 0
+uint32_t CFloatingPointParameterType::getDefaultValue() const
+{
+    float fDefault = 0.0f;
+
+    if (fDefault < _fMin) {
+
+        fDefault = _fMin;
+    } else if (fDefault > _fMax) {
+
+        fDefault = _fMax;
+    }
+    return utility::binaryCopy<uint32_t>(fDefault);
+}
+
 // Element properties
 void CFloatingPointParameterType::showProperties(string &strResult) const
 {
diff --git a/parameter/FloatingPointParameterType.h b/parameter/FloatingPointParameterType.h
index b56c9aa..7df27bd 100644
--- a/parameter/FloatingPointParameterType.h
+++ b/parameter/FloatingPointParameterType.h
@@ -58,6 +58,8 @@ public:
 
     std::string getKind() const override;
 
+    uint32_t getDefaultValue() const override;
+
 private:
     typedef CParameterType base;
 
-- 
2.43.0


From 677b00dbef3971333b3e1594e127073df3fd69c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:32 +0000
Subject: [PATCH 19/65] fix: accept on import the encoded enumeration values
 that a raw export writes

---
 parameter/EnumParameterType.cpp | 14 ++++++++++++++
 parameter/EnumParameterType.h   |  5 +++++
 2 files changed, 19 insertions(+)

diff --git a/parameter/EnumParameterType.cpp b/parameter/EnumParameterType.cpp
index e74788e..aff691a 100644
--- a/parameter/EnumParameterType.cpp
+++ b/parameter/EnumParameterType.cpp
@@ -30,6 +30,7 @@
 #include "EnumParameterType.h"
 #include "EnumValuePair.h"
 #include "ParameterAccessContext.h"
+#include "ConfigurationAccessContext.h"
 #include "convert.hpp"
 
 #include <iomanip>
@@ -214,6 +215,19 @@ bool CEnumParameterType::fromBlackboard(int32_t &userValue, uint32_t value,
     return true;
 }
 
+// Value space handling for configuration import
+void CEnumParameterType::handleValueSpaceAttribute(
+    CXmlElement & /*xmlConfigurableElementSettingsElement*/,
+    CConfigurationAccessContext &configurationAccessContext) const
+{
+    // Enumerations exported in raw value space do not tell so in the document: accept encoded
+    // values along with literals and numericals, which they can't be mistaken for.
+    if (!configurationAccessContext.serializeOut()) {
+
+        configurationAccessContext.setValueSpaceRaw(true);
+    }
+}
+
 // Default value handling (simulation only)
 uint32_t CEnumParameterType::getDefaultValue() const
 {
diff --git a/parameter/EnumParameterType.h b/parameter/EnumParameterType.h
index 2103377..17900b6 100644
--- a/parameter/EnumParameterType.h
+++ b/parameter/EnumParameterType.h
@@ -57,6 +57,11 @@ public:
     bool fromBlackboard(int32_t &iUserValue, uint32_t uiValue,
                         CParameterAccessContext &parameterAccessContext) const override;
 
+    // Value space handling for configuration import
+    void handleValueSpaceAttribute(
+        CXmlElement &xmlConfigurableElementSettingsElement,
+        CConfigurationAccessContext &configurationAccessContext) const override;
+
     // Default value handling (simulation only)
     uint32_t getDefaultValue() const override;
 
-- 
2.43.0


From b878211a42f9f03942a655f28499fe534ae1464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:22 +0000
Subject: [PATCH 20/65] fix: display the bounds of 8 bit integer parameters as
 numbers

---
 parameter/IntegerParameterType.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/parameter/IntegerParameterType.h b/parameter/IntegerParameterType.h
index 797cd44..72d5988 100644
--- a/parameter/IntegerParameterType.h
+++ b/parameter/IntegerParameterType.h
@@ -275,9 +275,10 @@ public:
         Base::showProperties(strResult);
 
         std::ostringstream stream;
+        // Bounds are converted to string as they would be displayed as characters if 8 bits wide
         stream << "Signed: " << (isSigned ? "yes" : "no") << "\n"
-               << "Min: " << _min << "\n"
-               << "Max: " << _max << "\n";
+               << "Min: " << std::to_string(_min) << "\n"
+               << "Max: " << std::to_string(_max) << "\n";
 
         strResult += stream.str();
 
@@ -317,16 +318,20 @@ public:
 
             if (bHexaValue) {
 
-                stream << "0x" << std::hex << std::uppercase
-                       << std::setw(static_cast<int>(getSize() * 2)) << std::setfill('0');
+                // Drop the sign extension then promote, as 8 bit wide values would otherwise be
+                // displayed as characters
+                using Unsigned = typename std::make_unsigned<CType>::type;
+                const auto width = static_cast<int>(getSize() * 2);
+
+                stream << std::hex << std::uppercase << std::setfill('0');
                 // Format Min
-                stream << _min;
+                stream << "0x" << std::setw(width) << uint32_t{static_cast<Unsigned>(_min)};
                 // Format Max
-                stream << _max;
+                stream << ", 0x" << std::setw(width) << uint32_t{static_cast<Unsigned>(_max)};
 
             } else {
 
-                stream << _min << ", " << _max;
+                stream << std::to_string(_min) << ", " << std::to_string(_max);
             }
 
             stream << "] for " << getKind();
-- 
2.43.0


From 6ca2cbb03ae8dbe3f11c923819c1911a93e92b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:10 +0000
Subject: [PATCH 21/65] fix: refuse indirectly recursive component types and
 subsystems without instance definition

---
 parameter/ComponentInstance.cpp | 14 +++++++++-----
 parameter/Subsystem.cpp         | 14 +++++++++-----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/parameter/ComponentInstance.cpp b/parameter/ComponentInstance.cpp
index 22fcdcc..7f6d288 100644
--- a/parameter/ComponentInstance.cpp
+++ b/parameter/ComponentInstance.cpp
@@ -97,13 +97,17 @@ bool CComponentInstance::fromXml(const CXmlElement &xmlElement,
 
         return false;
     }
-    if (_pComponentType == getParent()) {
+    // The component type must not be one of those being defined
+    for (const CElement *pParent = getParent(); pParent; pParent = pParent->getParent()) {
 
-        serializingContext.setError("Recursive definition of " + _pComponentType->getName() +
-                                    " due to " + xmlElement.getPath() +
-                                    " referring to one of its own type.");
+        if (_pComponentType == pParent) {
 
-        return false;
+            serializingContext.setError("Recursive definition of " + _pComponentType->getName() +
+                                        " due to " + xmlElement.getPath() +
+                                        " referring to one of its own type.");
+
+            return false;
+        }
     }
 
     return base::fromXml(xmlElement, serializingContext);
diff --git a/parameter/Subsystem.cpp b/parameter/Subsystem.cpp
index c422a88..dd11e40 100644
--- a/parameter/Subsystem.cpp
+++ b/parameter/Subsystem.cpp
@@ -125,15 +125,19 @@ bool CSubsystem::structureFromXml(const CXmlElement &xmlElement,
     }
 
     // XML populate ComponentLibrary
-    xmlElement.getChildElement("ComponentLibrary", childElement);
-
-    if (!_pComponentLibrary->fromXml(childElement, serializingContext)) {
+    if (xmlElement.getChildElement("ComponentLibrary", childElement) &&
+        !_pComponentLibrary->fromXml(childElement, serializingContext)) {
 
         return false;
     }
 
-    // XML populate InstanceDefintion
-    xmlElement.getChildElement("InstanceDefintion", childElement);
+    // XML populate InstanceDefinition
+    if (!xmlElement.getChildElement("InstanceDefinition", childElement)) {
+
+        serializingContext.setError("Missing InstanceDefinition in XML element " +
+                                    xmlElement.getPath());
+        return false;
+    }
     if (!_pInstanceDefinition->fromXml(childElement, serializingContext)) {
 
         return false;
-- 
2.43.0


From 7f526b3d3ec4df9617bb4402b76bf9018750a0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:54 +0000
Subject: [PATCH 22/65] fix: refuse parameters, bit blocks and bits of
 unsupported sizes

---
 parameter/BitParameterBlockType.cpp   | 13 +++++++++++--
 parameter/BitParameterType.cpp        |  3 ++-
 parameter/EnumParameterType.cpp       |  8 +++++++-
 parameter/FixedPointParameterType.cpp | 10 +++++++++-
 parameter/ParameterType.cpp           |  5 +++++
 parameter/ParameterType.h             |  2 ++
 6 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/parameter/BitParameterBlockType.cpp b/parameter/BitParameterBlockType.cpp
index 316676d..c27939f 100644
--- a/parameter/BitParameterBlockType.cpp
+++ b/parameter/BitParameterBlockType.cpp
@@ -60,8 +60,17 @@ bool CBitParameterBlockType::fromXml(const CXmlElement &xmlElement,
                                      CXmlSerializingContext &serializingContext)
 {
     // Size
-    xmlElement.getAttribute("Size", _size);
-    _size /= 8;
+    size_t sizeInBits = 0;
+    xmlElement.getAttribute("Size", sizeInBits);
+
+    if (sizeInBits != 8 && sizeInBits != 16 && sizeInBits != 32 && sizeInBits != 64) {
+
+        serializingContext.setError("Unsupported size (" + std::to_string(sizeInBits) + ") for " +
+                                    getKind() + " " + xmlElement.getPath());
+
+        return false;
+    }
+    _size = sizeInBits / 8;
 
     // Base
     return base::fromXml(xmlElement, serializingContext);
diff --git a/parameter/BitParameterType.cpp b/parameter/BitParameterType.cpp
index 128b70b..5751416 100644
--- a/parameter/BitParameterType.cpp
+++ b/parameter/BitParameterType.cpp
@@ -86,7 +86,8 @@ bool CBitParameterType::fromXml(const CXmlElement &xmlElement,
 
     size_t uiParentBlockBitSize = pBitParameterBlockType->getSize() * 8;
 
-    if (_bitPos + _uiBitSize > uiParentBlockBitSize) {
+    if (_uiBitSize == 0 || _uiBitSize > uiParentBlockBitSize ||
+        _bitPos > uiParentBlockBitSize - _uiBitSize) {
 
         // Range exceeded
         std::ostringstream strStream;
diff --git a/parameter/EnumParameterType.cpp b/parameter/EnumParameterType.cpp
index aff691a..27aabfa 100644
--- a/parameter/EnumParameterType.cpp
+++ b/parameter/EnumParameterType.cpp
@@ -81,7 +81,13 @@ bool CEnumParameterType::fromXml(const CXmlElement &xmlElement,
 {
     // Size in bits
     size_t sizeInBits = 0;
-    if (not xmlElement.getAttribute("Size", sizeInBits)) {
+    xmlElement.getAttribute("Size", sizeInBits);
+
+    if (not isSupportedSize(sizeInBits)) {
+
+        serializingContext.setError("Unsupported size (" + std::to_string(sizeInBits) + ") for " +
+                                    getKind() + " " + xmlElement.getPath());
+
         return false;
     }
 
diff --git a/parameter/FixedPointParameterType.cpp b/parameter/FixedPointParameterType.cpp
index 830ac64..9eac8e8 100644
--- a/parameter/FixedPointParameterType.cpp
+++ b/parameter/FixedPointParameterType.cpp
@@ -94,6 +94,14 @@ bool CFixedPointParameterType::fromXml(const CXmlElement &xmlElement,
     size_t sizeInBits = 0;
     xmlElement.getAttribute("Size", sizeInBits);
 
+    if (!isSupportedSize(sizeInBits)) {
+
+        serializingContext.setError("Unsupported size (" + std::to_string(sizeInBits) + ") for " +
+                                    getKind() + " " + xmlElement.getPath());
+
+        return false;
+    }
+
     // Q notation
     xmlElement.getAttribute("Integral", _uiIntegral);
     xmlElement.getAttribute("Fractional", _uiFractional);
@@ -270,7 +278,7 @@ bool CFixedPointParameterType::fromBlackboard(double &dUserValue, uint32_t uiVal
 // Util size
 size_t CFixedPointParameterType::getUtilSizeInBits() const
 {
-    return _uiIntegral + _uiFractional + 1;
+    return size_t{_uiIntegral} + _uiFractional + 1;
 }
 
 // Compute the range for the type (minimum and maximum values)
diff --git a/parameter/ParameterType.cpp b/parameter/ParameterType.cpp
index f8c3bc4..508cc33 100644
--- a/parameter/ParameterType.cpp
+++ b/parameter/ParameterType.cpp
@@ -56,6 +56,11 @@ void CParameterType::setSize(size_t size)
     _size = size;
 }
 
+bool CParameterType::isSupportedSize(size_t sizeInBits)
+{
+    return sizeInBits == 8 || sizeInBits == 16 || sizeInBits == 32;
+}
+
 size_t CParameterType::getSize() const
 {
     return _size;
diff --git a/parameter/ParameterType.h b/parameter/ParameterType.h
index b3a5685..b0ba689 100644
--- a/parameter/ParameterType.h
+++ b/parameter/ParameterType.h
@@ -129,6 +129,8 @@ protected:
     void populate(CElement *pElement) const override;
     // Size
     void setSize(size_t size);
+    // Whether parameters can be that wide
+    static bool isSupportedSize(size_t sizeInBits);
 
     // Check data has no bit set outside available range (based on byte size) and
     // check data is consistent with available range, with respect to its sign
-- 
2.43.0


From 2c4dbfbdf49e4fbb044d3aea282bcb7fd8ff5d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:15 +0000
Subject: [PATCH 23/65] fix: refuse XML elements where they do not belong
 instead of crashing

---
 parameter/BaseIntegerParameterType.cpp |  5 +++++
 parameter/BaseIntegerParameterType.h   |  1 +
 parameter/BitParameterBlockType.cpp    |  6 ++++++
 parameter/BitParameterBlockType.h      |  1 +
 parameter/ComponentLibrary.cpp         |  5 +++++
 parameter/ComponentLibrary.h           |  1 +
 parameter/CompoundRule.cpp             |  5 +++++
 parameter/CompoundRule.h               |  1 +
 parameter/ConfigurableDomain.cpp       |  5 +++++
 parameter/ConfigurableDomain.h         |  1 +
 parameter/ConfigurableDomains.cpp      |  5 +++++
 parameter/ConfigurableDomains.h        |  1 +
 parameter/DomainConfiguration.cpp      |  5 +++++
 parameter/DomainConfiguration.h        |  1 +
 parameter/Element.cpp                  | 13 +++++++++++++
 parameter/Element.h                    |  2 ++
 parameter/EnumParameterType.cpp        |  5 +++++
 parameter/EnumParameterType.h          |  1 +
 parameter/SubsystemPlugins.h           |  5 +++++
 parameter/SystemClass.cpp              |  8 ++++++++
 parameter/SystemClass.h                |  1 +
 parameter/TypeElement.cpp              | 10 ++++++++++
 parameter/TypeElement.h                |  2 ++
 23 files changed, 90 insertions(+)

diff --git a/parameter/BaseIntegerParameterType.cpp b/parameter/BaseIntegerParameterType.cpp
index 16c60bf..628f4a0 100644
--- a/parameter/BaseIntegerParameterType.cpp
+++ b/parameter/BaseIntegerParameterType.cpp
@@ -47,6 +47,11 @@ bool CBaseIntegerParameterType::childrenAreDynamic() const
     return true;
 }
 
+bool CBaseIntegerParameterType::isChildAllowed(const CElement &child) const
+{
+    return dynamic_cast<const CParameterAdaptation *>(&child) != nullptr;
+}
+
 bool CBaseIntegerParameterType::fromBlackboard(uint32_t &uiUserValue, uint32_t uiValue,
                                                CParameterAccessContext & /*ctx*/) const
 {
diff --git a/parameter/BaseIntegerParameterType.h b/parameter/BaseIntegerParameterType.h
index b39816c..2d9d79d 100644
--- a/parameter/BaseIntegerParameterType.h
+++ b/parameter/BaseIntegerParameterType.h
@@ -68,4 +68,5 @@ protected:
 private:
     // Returns true if children dynamic creation is to be dealt with
     bool childrenAreDynamic() const override;
+    bool isChildAllowed(const CElement &child) const override;
 };
diff --git a/parameter/BitParameterBlockType.cpp b/parameter/BitParameterBlockType.cpp
index c27939f..ba91561 100644
--- a/parameter/BitParameterBlockType.cpp
+++ b/parameter/BitParameterBlockType.cpp
@@ -28,6 +28,7 @@
  * SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 #include "BitParameterBlockType.h"
+#include "BitParameterType.h"
 #include "BitParameterBlock.h"
 #include "Utility.h"
 
@@ -49,6 +50,11 @@ bool CBitParameterBlockType::childrenAreDynamic() const
     return true;
 }
 
+bool CBitParameterBlockType::isChildAllowed(const CElement &child) const
+{
+    return dynamic_cast<const CBitParameterType *>(&child) != nullptr;
+}
+
 // Size
 size_t CBitParameterBlockType::getSize() const
 {
diff --git a/parameter/BitParameterBlockType.h b/parameter/BitParameterBlockType.h
index 58b42d4..10237cb 100644
--- a/parameter/BitParameterBlockType.h
+++ b/parameter/BitParameterBlockType.h
@@ -53,6 +53,7 @@ public:
 
 private:
     bool childrenAreDynamic() const override;
+    bool isChildAllowed(const CElement &child) const override;
     // Instantiation
     CInstanceConfigurableElement *doInstantiate() const override;
 
diff --git a/parameter/ComponentLibrary.cpp b/parameter/ComponentLibrary.cpp
index 8b27c46..9d39053 100644
--- a/parameter/ComponentLibrary.cpp
+++ b/parameter/ComponentLibrary.cpp
@@ -36,6 +36,11 @@ bool CComponentLibrary::childrenAreDynamic() const
     return true;
 }
 
+bool CComponentLibrary::isChildAllowed(const CElement &child) const
+{
+    return dynamic_cast<const CComponentType *>(&child) != nullptr;
+}
+
 std::string CComponentLibrary::getKind() const
 {
     return "ComponentLibrary";
diff --git a/parameter/ComponentLibrary.h b/parameter/ComponentLibrary.h
index a58a509..a129a7e 100644
--- a/parameter/ComponentLibrary.h
+++ b/parameter/ComponentLibrary.h
@@ -50,4 +50,5 @@ public:
 
 private:
     bool childrenAreDynamic() const override;
+    bool isChildAllowed(const CElement &child) const override;
 };
diff --git a/parameter/CompoundRule.cpp b/parameter/CompoundRule.cpp
index e69592b..89db165 100644
--- a/parameter/CompoundRule.cpp
+++ b/parameter/CompoundRule.cpp
@@ -49,6 +49,11 @@ bool CCompoundRule::childrenAreDynamic() const
     return true;
 }
 
+bool CCompoundRule::isChildAllowed(const CElement &child) const
+{
+    return dynamic_cast<const CRule *>(&child) != nullptr;
+}
+
 // Content dumping
 string CCompoundRule::logValue(utility::ErrorContext & /*ctx*/) const
 {
diff --git a/parameter/CompoundRule.h b/parameter/CompoundRule.h
index bc3ef35..f131589 100644
--- a/parameter/CompoundRule.h
+++ b/parameter/CompoundRule.h
@@ -61,6 +61,7 @@ private:
 
     // Returns true if children dynamic creation is to be dealt with
     bool childrenAreDynamic() const override;
+    bool isChildAllowed(const CElement &child) const override;
 
     // Type
     bool _bTypeAll{false};
diff --git a/parameter/ConfigurableDomain.cpp b/parameter/ConfigurableDomain.cpp
index 71bb3e8..b0239c4 100644
--- a/parameter/ConfigurableDomain.cpp
+++ b/parameter/ConfigurableDomain.cpp
@@ -79,6 +79,11 @@ bool CConfigurableDomain::childrenAreDynamic() const
     return true;
 }
 
+bool CConfigurableDomain::isChildAllowed(const CElement &child) const
+{
+    return dynamic_cast<const CDomainConfiguration *>(&child) != nullptr;
+}
+
 // Content dumping
 string CConfigurableDomain::logValue(utility::ErrorContext & /*ctx*/) const
 {
diff --git a/parameter/ConfigurableDomain.h b/parameter/ConfigurableDomain.h
index 736ed8f..8cb2aca 100644
--- a/parameter/ConfigurableDomain.h
+++ b/parameter/ConfigurableDomain.h
@@ -171,6 +171,7 @@ private:
     // Returns true if children dynamic creation is to be dealt with (here, will allow child
     // deletion upon clean)
     bool childrenAreDynamic() const override;
+    bool isChildAllowed(const CElement &child) const override;
 
     // Ensure validity on areas related to configurable element
     void validateAreas(const CConfigurableElement *pConfigurableElement,
diff --git a/parameter/ConfigurableDomains.cpp b/parameter/ConfigurableDomains.cpp
index faceb7c..b2db7d8 100644
--- a/parameter/ConfigurableDomains.cpp
+++ b/parameter/ConfigurableDomains.cpp
@@ -46,6 +46,11 @@ bool CConfigurableDomains::childrenAreDynamic() const
     return true;
 }
 
+bool CConfigurableDomains::isChildAllowed(const CElement &child) const
+{
+    return dynamic_cast<const CConfigurableDomain *>(&child) != nullptr;
+}
+
 // Ensure validity on whole domains from main blackboard
 void CConfigurableDomains::validate(const CParameterBlackboard *pMainBlackboard)
 {
diff --git a/parameter/ConfigurableDomains.h b/parameter/ConfigurableDomains.h
index 5a096a5..397dd38 100644
--- a/parameter/ConfigurableDomains.h
+++ b/parameter/ConfigurableDomains.h
@@ -190,6 +190,7 @@ private:
     void deleteDomain(CConfigurableDomain &configurableDomain);
     // Returns true if children dynamic creation is to be dealt with
     bool childrenAreDynamic() const override;
+    bool isChildAllowed(const CElement &child) const override;
     // Gather owned configurable elements owned by any domain
     void gatherAllOwnedConfigurableElements(
         std::set<const CConfigurableElement *> &configurableElementSet) const;
diff --git a/parameter/DomainConfiguration.cpp b/parameter/DomainConfiguration.cpp
index 60171e4..ebdb54e 100644
--- a/parameter/DomainConfiguration.cpp
+++ b/parameter/DomainConfiguration.cpp
@@ -62,6 +62,11 @@ bool CDomainConfiguration::childrenAreDynamic() const
     return true;
 }
 
+bool CDomainConfiguration::isChildAllowed(const CElement &child) const
+{
+    return dynamic_cast<const CCompoundRule *>(&child) != nullptr;
+}
+
 // XML configuration settings parsing
 bool CDomainConfiguration::parseSettings(CXmlElement &xmlConfigurationSettingsElement,
                                          CXmlDomainImportContext &context)
diff --git a/parameter/DomainConfiguration.h b/parameter/DomainConfiguration.h
index 5160369..7fdc3e5 100644
--- a/parameter/DomainConfiguration.h
+++ b/parameter/DomainConfiguration.h
@@ -131,6 +131,7 @@ private:
     // Returns true if children dynamic creation is to be dealt with (here, will allow child
     // deletion upon clean)
     bool childrenAreDynamic() const override;
+    bool isChildAllowed(const CElement &child) const override;
     // XML configuration settings serializing
     bool importOneConfigurableElementSettings(CAreaConfiguration *areaConfiguration,
                                               CXmlElement &xmlConfigurableElementSettingsElement,
diff --git a/parameter/Element.cpp b/parameter/Element.cpp
index 611951c..494b4b7 100644
--- a/parameter/Element.cpp
+++ b/parameter/Element.cpp
@@ -67,6 +67,11 @@ bool CElement::childrenAreDynamic() const
     return false;
 }
 
+bool CElement::isChildAllowed(const CElement & /*child*/) const
+{
+    return true;
+}
+
 bool CElement::init(string &strError)
 {
 
@@ -314,6 +319,14 @@ CElement *CElement::createChild(const CXmlElement &childElement,
 
         return nullptr;
     }
+    if (!isChildAllowed(*pChild)) {
+
+        elementSerializingContext.setError("XML element " + childElement.getPath() +
+                                           " is not allowed in " + getKind());
+        delete pChild;
+
+        return nullptr;
+    }
     // Store created child!
     addChild(pChild);
 
diff --git a/parameter/Element.h b/parameter/Element.h
index b7cdc6d..db2ad16 100644
--- a/parameter/Element.h
+++ b/parameter/Element.h
@@ -179,6 +179,8 @@ private:
     std::string getPathName() const;
     // Returns true if children dynamic creation is to be dealt with
     virtual bool childrenAreDynamic() const;
+    // Returns true if the element, created from XML, may be a child of this one
+    virtual bool isChildAllowed(const CElement &child) const;
     // House keeping
     void removeChildren();
     // Fill XmlElement during XML composing
diff --git a/parameter/EnumParameterType.cpp b/parameter/EnumParameterType.cpp
index 27aabfa..d522de0 100644
--- a/parameter/EnumParameterType.cpp
+++ b/parameter/EnumParameterType.cpp
@@ -53,6 +53,11 @@ bool CEnumParameterType::childrenAreDynamic() const
     return true;
 }
 
+bool CEnumParameterType::isChildAllowed(const CElement &child) const
+{
+    return dynamic_cast<const CEnumValuePair *>(&child) != nullptr;
+}
+
 // Element properties
 void CEnumParameterType::showProperties(string &strResult) const
 {
diff --git a/parameter/EnumParameterType.h b/parameter/EnumParameterType.h
index 17900b6..0e3b29e 100644
--- a/parameter/EnumParameterType.h
+++ b/parameter/EnumParameterType.h
@@ -79,6 +79,7 @@ private:
 
     // Returns true if children dynamic creation is to be dealt with
     bool childrenAreDynamic() const override;
+    bool isChildAllowed(const CElement &child) const override;
 
     // Literal - numerical conversions
     bool getLiteral(int32_t iNumerical, std::string &strLiteral) const;
diff --git a/parameter/SubsystemPlugins.h b/parameter/SubsystemPlugins.h
index 5123c28..e6f6e00 100644
--- a/parameter/SubsystemPlugins.h
+++ b/parameter/SubsystemPlugins.h
@@ -30,6 +30,7 @@
 #pragma once
 
 #include "KindElement.h"
+#include "PluginLocation.h"
 #include <string>
 
 class CSubsystemPlugins : public CKindElement
@@ -43,4 +44,8 @@ public:
 
 private:
     bool childrenAreDynamic() const override { return true; }
+    bool isChildAllowed(const CElement &child) const override
+    {
+        return dynamic_cast<const CPluginLocation *>(&child) != nullptr;
+    }
 };
diff --git a/parameter/SystemClass.cpp b/parameter/SystemClass.cpp
index ef2383b..da46e40 100644
--- a/parameter/SystemClass.cpp
+++ b/parameter/SystemClass.cpp
@@ -29,6 +29,8 @@
  */
 #include <algorithm>
 #include "SystemClass.h"
+#include "Subsystem.h"
+#include "XmlFileIncluderElement.h"
 #include "SubsystemLibrary.h"
 #include "VirtualSubsystem.h"
 #include "LoggingElementBuilderTemplate.h"
@@ -74,6 +76,12 @@ bool CSystemClass::childrenAreDynamic() const
     return true;
 }
 
+bool CSystemClass::isChildAllowed(const CElement &child) const
+{
+    return dynamic_cast<const CSubsystem *>(&child) != nullptr ||
+           dynamic_cast<const CXmlFileIncluderElement *>(&child) != nullptr;
+}
+
 string CSystemClass::getKind() const
 {
     return "SystemClass";
diff --git a/parameter/SystemClass.h b/parameter/SystemClass.h
index bb9a8aa..9616ad8 100644
--- a/parameter/SystemClass.h
+++ b/parameter/SystemClass.h
@@ -91,6 +91,7 @@ private:
     CSystemClass &operator=(const CSystemClass &);
     // base
     bool childrenAreDynamic() const override;
+    bool isChildAllowed(const CElement &child) const override;
 
     /** Load shared libraries subsystem plugins.
      *
diff --git a/parameter/TypeElement.cpp b/parameter/TypeElement.cpp
index e6b9276..45f63e6 100644
--- a/parameter/TypeElement.cpp
+++ b/parameter/TypeElement.cpp
@@ -29,6 +29,8 @@
  */
 #include "TypeElement.h"
 #include "MappingData.h"
+#include "BitParameterType.h"
+#include "ComponentType.h"
 #include "Tokenizer.h"
 #include "InstanceConfigurableElement.h"
 #include "Utility.h"
@@ -75,6 +77,14 @@ bool CTypeElement::hasMappingData() const
     return !!_pMappingData;
 }
 
+// Only types of elements which can stand on their own may be instantiated
+bool CTypeElement::isChildAllowed(const CElement &child) const
+{
+    return dynamic_cast<const CTypeElement *>(&child) != nullptr &&
+           dynamic_cast<const CComponentType *>(&child) == nullptr &&
+           dynamic_cast<const CBitParameterType *>(&child) == nullptr;
+}
+
 // Element properties
 void CTypeElement::showProperties(std::string &strResult) const
 {
diff --git a/parameter/TypeElement.h b/parameter/TypeElement.h
index e73987c..9369f83 100644
--- a/parameter/TypeElement.h
+++ b/parameter/TypeElement.h
@@ -98,6 +98,8 @@ protected:
     std::string getFormattedMapping(const CTypeElement *predecessor) const;
 
 private:
+    bool isChildAllowed(const CElement &child) const override;
+
     CTypeElement(const CTypeElement &);
     CTypeElement &operator=(const CTypeElement &);
     // Actual instance creation
-- 
2.43.0


From a8ca26ee4fb8545c3c56960148a3c335dd05d9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:07 +0000
Subject: [PATCH 24/65] fix: handle XML elements lacking an expected child
 without dereferencing a null node

---
 xmlserializer/XmlElement.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/xmlserializer/XmlElement.cpp b/xmlserializer/XmlElement.cpp
index 9c3950d..2e1ba87 100644
--- a/xmlserializer/XmlElement.cpp
+++ b/xmlserializer/XmlElement.cpp
@@ -136,11 +136,14 @@ string CXmlElement::getTextContent() const
 bool CXmlElement::getChildElement(const string &strType, CXmlElement &childElement) const
 {
     CChildIterator childIterator(*this);
+    CXmlElement candidate;
 
-    while (childIterator.next(childElement)) {
+    // Leave the result untouched if not found
+    while (childIterator.next(candidate)) {
 
-        if (childElement.getType() == strType) {
+        if (candidate.getType() == strType) {
 
+            childElement = candidate;
             return true;
         }
     }
@@ -151,12 +154,15 @@ bool CXmlElement::getChildElement(const string &strType, const string &strNameAt
                                   CXmlElement &childElement) const
 {
     CChildIterator childIterator(*this);
+    CXmlElement candidate;
 
-    while (childIterator.next(childElement)) {
+    // Leave the result untouched if not found
+    while (childIterator.next(candidate)) {
 
-        if ((childElement.getType() == strType) &&
-            (childElement.getNameAttribute() == strNameAttribute)) {
+        if ((candidate.getType() == strType) &&
+            (candidate.getNameAttribute() == strNameAttribute)) {
 
+            childElement = candidate;
             return true;
         }
     }
@@ -240,7 +246,7 @@ void CXmlElement::createChild(CXmlElement &childElement, const string &strType)
 
 // Child iteration
 CXmlElement::CChildIterator::CChildIterator(const CXmlElement &xmlElement)
-    : _pCurNode(xmlElement._pXmlElement->children)
+    : _pCurNode(xmlElement._pXmlElement ? xmlElement._pXmlElement->children : nullptr)
 {
 }
 
-- 
2.43.0


From c1e463135d05c93331883ce16d3ca478696dbbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 25/65] fix: give the value of a mapping context item, not its
 key

Looking an item up by key in a mapping context returned the key itself.
---
 parameter/MappingContext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parameter/MappingContext.cpp b/parameter/MappingContext.cpp
index 3599296..2b9f14c 100644
--- a/parameter/MappingContext.cpp
+++ b/parameter/MappingContext.cpp
@@ -71,7 +71,7 @@ const string *CMappingContext::getItem(const string &strKey) const
     auto itemFound = find_if(begin(mItems), end(mItems), [&](const SItem &item) {
         return item.strKey != nullptr && strKey == *item.strKey;
     });
-    return (itemFound != end(mItems)) ? itemFound->strKey : nullptr;
+    return (itemFound != end(mItems)) ? itemFound->strItem : nullptr;
 }
 
 bool CMappingContext::iSet(size_t itemType) const
-- 
2.43.0


From 4705dd27115fc6686402fa3b157742d9b8e85693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 26/65] fix: replace mapping amendments that follow a percent
 sign that is none

Formatting a mapping value stopped at the first percent sign that was not
followed by the number of a context key that is set: the amendments after
it were left unreplaced.
---
 parameter/FormattedSubsystemObject.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parameter/FormattedSubsystemObject.cpp b/parameter/FormattedSubsystemObject.cpp
index dc7dded..20b0887 100644
--- a/parameter/FormattedSubsystemObject.cpp
+++ b/parameter/FormattedSubsystemObject.cpp
@@ -114,8 +114,14 @@ string CFormattedSubsystemObject::formatMappingValue(const string &strMappingVal
                 // Make the amendment
                 strFormattedValue =
                     strFormattedValue.substr(0, uiPercentPos) + strAmendValue + strEndOfLineAmended;
+
+                return strFormattedValue;
             }
         }
+        // Not an amendment: leave the percent sign as is and look for amendments after it
+        strFormattedValue = strFormattedValue.substr(0, uiPercentPos + 1) +
+                            formatMappingValue(strFormattedValue.substr(uiPercentPos + 1),
+                                               firstAmendKey, nbAmendKeys, context);
     }
     return strFormattedValue;
 }
-- 
2.43.0


From c22d9d5bb8072b07674f561c3cc3c351cddd2994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 27/65] fix: require both arguments of the setSequenceAwareness
 command

With the domain only, the missing second argument was accessed.
---
 parameter/ParameterMgr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index 3e9cad6..11a0431 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -195,7 +195,7 @@ const CParameterMgr::SRemoteCommandParserItem CParameterMgr::gastRemoteCommandPa
      "Delete all configurable domains"},
     {"renameDomain", &CParameterMgr::renameDomainCommandProcess, 2, "<domain> <new name>",
      "Rename configurable domain"},
-    {"setSequenceAwareness", &CParameterMgr::setSequenceAwarenessCommandProcess, 1,
+    {"setSequenceAwareness", &CParameterMgr::setSequenceAwarenessCommandProcess, 2,
      "<domain> true|false*", "Set configurable domain sequence awareness"},
     {"getSequenceAwareness", &CParameterMgr::getSequenceAwarenessCommandProcess, 1, "<domain>",
      "Get configurable domain sequence awareness"},
-- 
2.43.0


From c912bb925b96244f17b308219454c90c31641647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 28/65] fix: keep the values of an element when its settings
 are refused

Setting an element from an XML document that turned out to be wrong half way
left the values that came before the error written.
---
 parameter/ParameterMgr.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index 11a0431..c4afd64 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -1560,8 +1560,13 @@ bool CParameterMgr::setSettingsAsXML(CConfigurableElement *configurableElement,
     if (doc == nullptr) {
         return false;
     }
+    // A refused document must not leave part of its values behind
+    std::vector<uint8_t> backup;
+    getSettingsAsBytes(*configurableElement, backup);
+
     if (not xmlParse(xmlParameterContext, configurableElement, doc, "",
                      EParameterConfigurationLibrary, false)) {
+        _pMainParameterBlackboard->writeBytes(backup, configurableElement->getOffset());
         return false;
     }
     if (_bAutoSyncOn) {
-- 
2.43.0


From b3dc825ef1b01432ca34f0d817a16a211ba97ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 29/65] fix: never read a string beyond its parameter

Bytes given to setElementBytes, or read back from a subsystem, may lack the
null character that ends a string: reading it went on into the following
parameters and beyond the blackboard.
---
 parameter/ParameterBlackboard.cpp | 13 ++++++-------
 parameter/ParameterBlackboard.h   |  2 +-
 parameter/StringParameter.cpp     |  3 ++-
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/parameter/ParameterBlackboard.cpp b/parameter/ParameterBlackboard.cpp
index eaa6b97..47bb637 100644
--- a/parameter/ParameterBlackboard.cpp
+++ b/parameter/ParameterBlackboard.cpp
@@ -74,15 +74,14 @@ void CParameterBlackboard::writeString(const std::string &input, size_t offset)
     *dest_last = '\0';
 }
 
-void CParameterBlackboard::readString(std::string &output, size_t offset) const
+void CParameterBlackboard::readString(std::string &output, size_t maxLength, size_t offset) const
 {
-    // As the string is null terminated in the blackboard,
-    // the size that will be read is not known. (>= 1)
-    assertValidAccess(offset, sizeof('\0'));
+    assertValidAccess(offset, maxLength);
 
-    // Get the pointer to the null terminated string
-    const uint8_t *first = &mBlackboard[offset];
-    output = reinterpret_cast<const char *>(first);
+    // The string is null terminated in the blackboard, unless bytes that did not come from
+    // writeString were stored there
+    auto first = begin(mBlackboard) + offset;
+    output.assign(first, std::find(first, first + maxLength, uint8_t('\0')));
 }
 
 void CParameterBlackboard::writeBuffer(const void *pvSrcData, size_t size, size_t offset)
diff --git a/parameter/ParameterBlackboard.h b/parameter/ParameterBlackboard.h
index 979e199..90ce01f 100644
--- a/parameter/ParameterBlackboard.h
+++ b/parameter/ParameterBlackboard.h
@@ -47,7 +47,7 @@ public:
     void readInteger(void *pvDstData, size_t size, size_t offset) const;
 
     void writeString(const std::string &input, size_t offset);
-    void readString(std::string &output, size_t offset) const;
+    void readString(std::string &output, size_t maxLength, size_t offset) const;
 
     void writeBuffer(const void *pvSrcData, size_t size, size_t offset);
     void readBuffer(void *pvDstData, size_t size, size_t offset) const;
diff --git a/parameter/StringParameter.cpp b/parameter/StringParameter.cpp
index 0651bf6..cabd0d7 100644
--- a/parameter/StringParameter.cpp
+++ b/parameter/StringParameter.cpp
@@ -90,5 +90,6 @@ bool CStringParameter::doSetValue(const string &strValue, size_t offset,
 void CStringParameter::doGetValue(string &strValue, size_t offset,
                                   CParameterAccessContext &parameterAccessContext) const
 {
-    parameterAccessContext.getParameterBlackboard()->readString(strValue, offset);
+    parameterAccessContext.getParameterBlackboard()->readString(strValue, getSize() - 1,
+                                                                   offset);
 }
-- 
2.43.0


From fbce49d387574c5576dcdbbbaf33dc06991d8ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 30/65] fix: refuse documents whose root element has an
 ill-formed attribute

The error thrown for an attribute of the root element (sequence awareness
of a single domain, server port of the framework configuration...) was not
caught and terminated the process.
---
 xmlserializer/XmlMemoryDocSink.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xmlserializer/XmlMemoryDocSink.cpp b/xmlserializer/XmlMemoryDocSink.cpp
index 500ee3c..8583222 100644
--- a/xmlserializer/XmlMemoryDocSink.cpp
+++ b/xmlserializer/XmlMemoryDocSink.cpp
@@ -29,6 +29,7 @@
  */
 
 #include "XmlMemoryDocSink.h"
+#include "PfError.hpp"
 
 #define base CXmlDocSink
 
@@ -44,5 +45,11 @@ bool CXmlMemoryDocSink::doProcess(CXmlDocSource &xmlDocSource,
     xmlDocSource.getRootElement(docElement);
 
     // Load the structure from the XML Sink
-    return _pXmlSink->fromXml(docElement, serializingContext);
+    try {
+        return _pXmlSink->fromXml(docElement, serializingContext);
+    } catch (const PfError &e) {
+        // An attribute of the root element could not be interpreted
+        serializingContext.appendLineToError(e.what());
+        return false;
+    }
 }
-- 
2.43.0


From 1f8fb8994a0ec104a1973c999a72a18cd0cf3c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 31/65] fix: keep the value of a bit when its settings are
 refused

---
 parameter/ParameterMgr.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index c4afd64..22290b1 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -1561,12 +1561,13 @@ bool CParameterMgr::setSettingsAsXML(CConfigurableElement *configurableElement,
         return false;
     }
     // A refused document must not leave part of its values behind
-    std::vector<uint8_t> backup;
-    getSettingsAsBytes(*configurableElement, backup);
+    CParameterBlackboard backup;
+    backup.setSize(_pMainParameterBlackboard->getSize());
+    _pMainParameterBlackboard->saveTo(&backup, 0);
 
     if (not xmlParse(xmlParameterContext, configurableElement, doc, "",
                      EParameterConfigurationLibrary, false)) {
-        _pMainParameterBlackboard->writeBytes(backup, configurableElement->getOffset());
+        _pMainParameterBlackboard->restoreFrom(&backup, 0);
         return false;
     }
     if (_bAutoSyncOn) {
-- 
2.43.0


From 7f8d8c76866ce387b5d25ca8feb25c5e0f5a7df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 32/65] fix: bound the nesting of rules

---
 parameter/RuleParser.cpp | 8 ++++++++
 parameter/RuleParser.h   | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/parameter/RuleParser.cpp b/parameter/RuleParser.cpp
index f585cc0..7f4faec 100644
--- a/parameter/RuleParser.cpp
+++ b/parameter/RuleParser.cpp
@@ -179,6 +179,14 @@ bool CRuleParser::iterate(string &strError)
             // Extract type
             _strRuleType = _strApplicationRule.substr(_uiCurrentPos, delimiter - _uiCurrentPos);
             _currentDeepness++;
+
+            // Rules are parsed, evaluated and exported recursively
+            if (_currentDeepness > _maxDeepness) {
+
+                strError = "Rules too deeply nested";
+
+                return false;
+            }
             break;
         case '}':
             _eStatus = EEndCompoundRule;
diff --git a/parameter/RuleParser.h b/parameter/RuleParser.h
index 74c1863..908f7be 100644
--- a/parameter/RuleParser.h
+++ b/parameter/RuleParser.h
@@ -84,6 +84,8 @@ private:
     std::string::size_type _uiCurrentPos{0};
     // Deepness
     size_t _currentDeepness{0};
+    // Deepest accepted nesting: an XML document could not hold much more (256 elements at most)
+    static const size_t _maxDeepness = 200;
     // Current Type
     std::string _strRuleType;
     // Status
-- 
2.43.0


From 9188f4d819181eae70b388d5be3a7a0c1189a727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 33/65] fix: refuse array indices followed by other characters

---
 parameter/ArrayParameter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parameter/ArrayParameter.cpp b/parameter/ArrayParameter.cpp
index 4cd2942..05931e9 100644
--- a/parameter/ArrayParameter.cpp
+++ b/parameter/ArrayParameter.cpp
@@ -214,7 +214,7 @@ bool CArrayParameter::getIndex(CPathNavigator &pathNavigator, size_t &index,
 
         iss >> index;
 
-        if (!iss) {
+        if (!iss || !iss.eof()) {
 
             parameterAccessContext.setError("Expected numerical expression as last item in " +
                                             pathNavigator.getCurrentPath());
-- 
2.43.0


From ffab71af420c39070948d744e3ef99466d3a1a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 34/65] fix: refuse array access to parameters which are no
 arrays

---
 parameter/BaseParameter.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parameter/BaseParameter.cpp b/parameter/BaseParameter.cpp
index f28a26c..6fbca68 100644
--- a/parameter/BaseParameter.cpp
+++ b/parameter/BaseParameter.cpp
@@ -173,11 +173,10 @@ bool CBaseParameter::access(string &strValue, bool bSet,
 }
 
 bool CBaseParameter::access(std::vector<string> & /*astrValues*/, bool /*bSet*/,
-                            CParameterAccessContext & /*ctx*/) const
+                            CParameterAccessContext &parameterAccessContext) const
 {
-    // Generic string array access to scalar parameter must have been filtered out before
-    assert(0);
-
+    // Some scalar parameters may be declared with an array length, which they ignore
+    parameterAccessContext.setError("Unsupported conversion");
     return false;
 }
 
-- 
2.43.0


From f33131d7666e4064e6d3347bb6681fcb11fc5a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 35/65] fix: survive the deletion of a remote server which did
 not start

---
 remote-processor/BackgroundRemoteProcessorServer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/remote-processor/BackgroundRemoteProcessorServer.cpp b/remote-processor/BackgroundRemoteProcessorServer.cpp
index 0820786..2321b5e 100644
--- a/remote-processor/BackgroundRemoteProcessorServer.cpp
+++ b/remote-processor/BackgroundRemoteProcessorServer.cpp
@@ -55,7 +55,9 @@ bool BackgroundRemoteProcessorServer::start(std::string &error)
 bool BackgroundRemoteProcessorServer::stop()
 {
     _server->stop();
-    return mServerSuccess.get();
+
+    // There is nothing to wait for if the server could not be started
+    return mServerSuccess.valid() && mServerSuccess.get();
 }
 
 BackgroundRemoteProcessorServer::~BackgroundRemoteProcessorServer()
-- 
2.43.0


From ece0e4cd487e36307695668fa9c9cc9fd2dd5b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 36/65] fix: survive messages announcing a wrong size

---
 remote-processor/Message.cpp | 41 ++++++++++++++++++++++++++++++------
 remote-processor/Message.h   | 11 ++++++++++
 2 files changed, 45 insertions(+), 7 deletions(-)

diff --git a/remote-processor/Message.cpp b/remote-processor/Message.cpp
index 66154ec..90e48ab 100644
--- a/remote-processor/Message.cpp
+++ b/remote-processor/Message.cpp
@@ -31,6 +31,7 @@
 #include "Socket.h"
 #include "Iterator.hpp"
 #include <asio.hpp>
+#include <algorithm>
 #include <vector>
 #include <numeric>
 #include <cassert>
@@ -220,14 +221,14 @@ CMessage::Result CMessage::serialize(Socket &&socket, bool bOut, string &strErro
             return error;
         }
 
-        // Data
-
-        // Allocate
-        allocateData(uiSize - sizeof(_ucMsgId));
+        // The size includes the message id
+        if (uiSize < sizeof(_ucMsgId)) {
+            strError = "Message size incorrect";
+            return error;
+        }
 
-        // Data receive
-        if (!asio::read(asioSocket, asio::buffer(mData), ec)) {
-            strError = string("Data read failed: ") + ec.message();
+        // Data
+        if (!receiveData(socket, uiSize - sizeof(_ucMsgId), strError)) {
             return error;
         }
 
@@ -252,6 +253,32 @@ CMessage::Result CMessage::serialize(Socket &&socket, bool bOut, string &strErro
     return success;
 }
 
+// Data receive
+bool CMessage::receiveData(Socket &socket, size_t size, string &strError)
+{
+    // The peer might announce more than it sends: only make room for what comes
+    static const size_t maxChunkSize = 1 << 20;
+
+    allocateData(0);
+
+    while (mData.size() < size) {
+
+        const size_t received = mData.size();
+        const size_t chunkSize = std::min(maxChunkSize, size - received);
+
+        mData.resize(received + chunkSize);
+
+        asio::error_code ec;
+        asio::read(socket.get(), asio::buffer(mData.data() + received, chunkSize), ec);
+
+        if (ec) {
+            strError = string("Data read failed: ") + ec.message();
+            return false;
+        }
+    }
+    return true;
+}
+
 // Checksum
 uint8_t CMessage::computeChecksum() const
 {
diff --git a/remote-processor/Message.h b/remote-processor/Message.h
index 2a596f1..53ae5dd 100644
--- a/remote-processor/Message.h
+++ b/remote-processor/Message.h
@@ -122,6 +122,17 @@ private:
     * @param[int] uiDataSize the szie to allocate in bytes
     */
     void allocateData(size_t uiDataSize);
+
+    /** Receive the message data
+    *
+    * @param[in,out] socket the socket to read from
+    * @param[in] size the size of the data in bytes
+    * @param[out] strError on failure, a string explaining the error
+    *
+    * @return true if all the data could be received
+    */
+    bool receiveData(Socket &socket, size_t size, std::string &strError);
+
     // Fill data to send
     virtual void fillDataToSend() = 0;
     // Collect received data
-- 
2.43.0


From 0a03398169b3222ccbe4566f43ffd87a7518621b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 37/65] fix: survive messages with malformed strings

---
 remote-processor/AnswerMessage.cpp  |  8 ++++++--
 remote-processor/AnswerMessage.h    |  2 +-
 remote-processor/Message.cpp        | 17 +++++++++++++++--
 remote-processor/Message.h          | 11 ++++++++---
 remote-processor/RequestMessage.cpp | 12 +++++++++---
 remote-processor/RequestMessage.h   |  2 +-
 6 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/remote-processor/AnswerMessage.cpp b/remote-processor/AnswerMessage.cpp
index 7ae948f..e1721d2 100644
--- a/remote-processor/AnswerMessage.cpp
+++ b/remote-processor/AnswerMessage.cpp
@@ -79,12 +79,16 @@ void CAnswerMessage::fillDataToSend()
 }
 
 // Collect received data
-void CAnswerMessage::collectReceivedData()
+bool CAnswerMessage::collectReceivedData()
 {
     // Receive answer
     string strAnswer;
 
-    readString(strAnswer);
+    if (!readString(strAnswer)) {
+        return false;
+    }
 
     setAnswer(strAnswer);
+
+    return true;
 }
diff --git a/remote-processor/AnswerMessage.h b/remote-processor/AnswerMessage.h
index 2bc5147..f4433c4 100644
--- a/remote-processor/AnswerMessage.h
+++ b/remote-processor/AnswerMessage.h
@@ -49,7 +49,7 @@ private:
     // Fill data to send
     void fillDataToSend() override;
     // Collect received data
-    void collectReceivedData() override;
+    bool collectReceivedData() override;
 
     /** @return size of the answer message in bytes
     */
diff --git a/remote-processor/Message.cpp b/remote-processor/Message.cpp
index 90e48ab..b9aeb9f 100644
--- a/remote-processor/Message.cpp
+++ b/remote-processor/Message.cpp
@@ -95,13 +95,20 @@ void CMessage::writeString(const string &strData)
     writeData(strData.c_str(), size);
 }
 
-void CMessage::readString(string &strData)
+bool CMessage::readString(string &strData)
 {
     // Size
     uint32_t uiSize;
 
+    if (getRemainingDataSize() < sizeof(uiSize)) {
+        return false;
+    }
     readData(&uiSize, sizeof(uiSize));
 
+    if (getRemainingDataSize() < uiSize) {
+        return false;
+    }
+
     // Data
     std::vector<char> string(uiSize + 1);
 
@@ -113,6 +120,8 @@ void CMessage::readString(string &strData)
 
     // Output
     strData = string.data();
+
+    return true;
 }
 
 size_t CMessage::getStringSize(const string &strData) const
@@ -247,7 +256,11 @@ CMessage::Result CMessage::serialize(Socket &&socket, bool bOut, string &strErro
         }
 
         // Collect data in derived
-        collectReceivedData();
+        if (!collectReceivedData()) {
+
+            strError = "Malformed message data";
+            return error;
+        }
     }
 
     return success;
diff --git a/remote-processor/Message.h b/remote-processor/Message.h
index 53ae5dd..a4df5b7 100644
--- a/remote-processor/Message.h
+++ b/remote-processor/Message.h
@@ -100,8 +100,10 @@ protected:
     /** Write string to the message
     *
     * @param[out] strData the string to read to
+    *
+    * @return false if the message data does not hold a complete string, true otherwise
     */
-    void readString(std::string &strData);
+    bool readString(std::string &strData);
 
     /** @return string length plus room to store its length
     *
@@ -135,8 +137,11 @@ private:
 
     // Fill data to send
     virtual void fillDataToSend() = 0;
-    // Collect received data
-    virtual void collectReceivedData() = 0;
+    /** Collect received data
+    *
+    * @return false if the received data is malformed, true otherwise
+    */
+    virtual bool collectReceivedData() = 0;
 
     /** @return size of the transaction data in bytes
     */
diff --git a/remote-processor/RequestMessage.cpp b/remote-processor/RequestMessage.cpp
index 0c32438..921e68b 100644
--- a/remote-processor/RequestMessage.cpp
+++ b/remote-processor/RequestMessage.cpp
@@ -104,12 +104,14 @@ void CRequestMessage::fillDataToSend()
 }
 
 // Collect received data
-void CRequestMessage::collectReceivedData()
+bool CRequestMessage::collectReceivedData()
 {
     // Receive command
     string strCommand;
 
-    readString(strCommand);
+    if (!readString(strCommand)) {
+        return false;
+    }
 
     setCommand(strCommand);
 
@@ -118,10 +120,14 @@ void CRequestMessage::collectReceivedData()
 
         string strArgument;
 
-        readString(strArgument);
+        if (!readString(strArgument)) {
+            return false;
+        }
 
         addArgument(strArgument);
     }
+
+    return true;
 }
 
 // Size
diff --git a/remote-processor/RequestMessage.h b/remote-processor/RequestMessage.h
index 57c0be0..524bb16 100644
--- a/remote-processor/RequestMessage.h
+++ b/remote-processor/RequestMessage.h
@@ -64,7 +64,7 @@ private:
     // Fill data to send
     void fillDataToSend() override;
     // Collect received data
-    void collectReceivedData() override;
+    bool collectReceivedData() override;
     // Size
     /**
      * @return size of the request message in bytes
-- 
2.43.0


From a131aa2c3d75a4c313b4926a7de65182f0f4090d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 38/65] fix: carry strings with embedded null characters

---
 remote-processor/Message.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/remote-processor/Message.cpp b/remote-processor/Message.cpp
index b9aeb9f..fb9e743 100644
--- a/remote-processor/Message.cpp
+++ b/remote-processor/Message.cpp
@@ -110,16 +110,13 @@ bool CMessage::readString(string &strData)
     }
 
     // Data
-    std::vector<char> string(uiSize + 1);
+    std::vector<char> string(uiSize);
 
     // Content
     readData(string.data(), uiSize);
 
-    // NULL-terminate string
-    string.back() = '\0';
-
     // Output
-    strData = string.data();
+    strData.assign(string.begin(), string.end());
 
     return true;
 }
-- 
2.43.0


From 0296f03fc9a297341abf7f3266d75af610fb5d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 39/65] fix: only execute request messages

---
 remote-processor/RequestMessage.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/remote-processor/RequestMessage.cpp b/remote-processor/RequestMessage.cpp
index 921e68b..c412b86 100644
--- a/remote-processor/RequestMessage.cpp
+++ b/remote-processor/RequestMessage.cpp
@@ -106,6 +106,11 @@ void CRequestMessage::fillDataToSend()
 // Collect received data
 bool CRequestMessage::collectReceivedData()
 {
+    // Answers and unknown messages are no requests
+    if (getMsgId() != MsgType::ECommandRequest) {
+        return false;
+    }
+
     // Receive command
     string strCommand;
 
-- 
2.43.0


From 116bd7dfd253e9d26894427af4a8f8ecaf9418cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 40/65] fix: leave the C handle stopped after a failed start

A failed pfwStart left a created but not started instance behind. The
handle then was considered as started: pfwApplyConfigurations and
pfwBindParameter aborted on it and it could not be started any more.
---
 bindings/c/ParameterFramework.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/bindings/c/ParameterFramework.cpp b/bindings/c/ParameterFramework.cpp
index 858994b..3979e43 100644
--- a/bindings/c/ParameterFramework.cpp
+++ b/bindings/c/ParameterFramework.cpp
@@ -141,6 +141,8 @@ private:
 struct PfwHandler_ : private utility::NonCopyable
 {
     void setLogger(const PfwLogger *logger);
+    /** Go back to the state before any start, keeping the last status. */
+    void reset();
     bool createCriteria(const PfwCriterion criteria[], size_t criterionNb);
 
     pfw::Criteria criteria;
@@ -174,6 +176,13 @@ void PfwHandler::setLogger(const PfwLogger *logger)
     pfw->setLogger(&mLogger);
 }
 
+void PfwHandler::reset()
+{
+    criteria.clear();
+    delete pfw;
+    pfw = nullptr;
+}
+
 bool PfwHandler::createCriteria(const PfwCriterion criteriaArray[], size_t criterionNb)
 {
     Status &status = lastStatus;
@@ -236,10 +245,16 @@ bool pfwStart(PfwHandler *handle, const char *configPath, const PfwCriterion cri
     handle->setLogger(logger);
 
     if (not handle->createCriteria(criteria, criterionNb)) {
+        handle->reset();
         return status.failure();
     }
 
-    return status.forward(handle->pfw->start(status.msg()));
+    if (not handle->pfw->start(status.msg())) {
+        // The parameter framework is not started: it can not be used
+        handle->reset();
+        return status.failure();
+    }
+    return status.success();
 }
 
 const char *pfwGetLastError(const PfwHandler *handle)
-- 
2.43.0


From 6bc07457aaf5dc74197ec8ed2a0c35515cdff513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 41/65] fix: do not share the log context between applying
 threads

The log context was opened before the blackboard lock was taken, so
concurrent requests for the application of configurations modified its
indentation at the same time.
---
 parameter/ParameterMgr.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index 22290b1..d42a6a1 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -680,11 +680,11 @@ CSelectionCriterion *CParameterMgr::getSelectionCriterion(const string &strName)
 // Configuration application
 void CParameterMgr::applyConfigurations()
 {
-    LOG_CONTEXT("Configuration application request");
-
-    // Lock state
+    // Lock state, before logging as the log context is not thread safe
     lock_guard<mutex> autoLock(getBlackboardMutex());
 
+    LOG_CONTEXT("Configuration application request");
+
     if (!_bTuningModeIsOn) {
 
         // Apply configuration(s)
-- 
2.43.0


From 3c42fb958401e08672b4989f0dae103b84f39825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 42/65] fix: lock the blackboard while accessing settings as
 XML or bytes

Values accessed as XML or bytes, by handle or command, were torn by
concurrent applications or accesses, and a refused XML document undid
what other threads had written meanwhile.
---
 parameter/ParameterMgr.cpp | 15 +++++++++++++++
 parameter/ParameterMgr.h   |  2 +-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index d42a6a1..c2a91d4 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -795,6 +795,9 @@ void CParameterMgr::getSettingsAsBytes(const CConfigurableElement &element,
     CParameterAccessContext parameterAccessContext(error);
     parameterAccessContext.setParameterBlackboard(_pMainParameterBlackboard);
 
+    // Ensure we're safe against blackboard foreign access
+    lock_guard<mutex> autoLock(_blackboardMutex);
+
     // Get the settings
     element.getSettingsAsBytes(settings, parameterAccessContext);
 }
@@ -813,6 +816,9 @@ bool CParameterMgr::setSettingsAsBytes(const CConfigurableElement &element,
     parameterAccessContext.setParameterBlackboard(_pMainParameterBlackboard);
     parameterAccessContext.setAutoSync(autoSyncOn());
 
+    // Ensure we're safe against blackboard foreign access
+    lock_guard<mutex> autoLock(_blackboardMutex);
+
     // Set the settings
     return element.setSettingsAsBytes(settings, parameterAccessContext);
 }
@@ -1538,6 +1544,9 @@ bool CParameterMgr::getSettingsAsXML(const CConfigurableElement *configurableEle
     ostringstream output;
     CXmlStreamDocSink streamSink(output);
 
+    // Ensure we're safe against blackboard foreign access
+    lock_guard<mutex> autoLock(_blackboardMutex);
+
     if (not streamSink.process(memorySource, xmlParameterContext)) {
         result = error;
         return false;
@@ -1560,6 +1569,9 @@ bool CParameterMgr::setSettingsAsXML(CConfigurableElement *configurableElement,
     if (doc == nullptr) {
         return false;
     }
+    // Ensure we're safe against blackboard foreign access
+    lock_guard<mutex> autoLock(_blackboardMutex);
+
     // A refused document must not leave part of its values behind
     CParameterBlackboard backup;
     backup.setSize(_pMainParameterBlackboard->getSize());
@@ -1641,6 +1653,9 @@ CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::dumpElementCommandP
     CParameterAccessContext parameterAccessContext(strError, _pMainParameterBlackboard,
                                                    _bValueSpaceIsRaw, _bOutputRawFormatIsHex);
 
+    // Ensure we're safe against blackboard foreign access
+    lock_guard<mutex> autoLock(_blackboardMutex);
+
     // Dump elements
     strResult = pLocatedElement->dumpContent(parameterAccessContext);
 
diff --git a/parameter/ParameterMgr.h b/parameter/ParameterMgr.h
index bc0726d..61177a2 100644
--- a/parameter/ParameterMgr.h
+++ b/parameter/ParameterMgr.h
@@ -878,7 +878,7 @@ private:
     size_t _maxCommandUsageLength{0};
 
     // Blackboard access mutex
-    std::mutex _blackboardMutex;
+    mutable std::mutex _blackboardMutex;
 
     /** Application main logger based on the one provided by the client */
     mutable core::log::Logger _logger;
-- 
2.43.0


From 3f3618a45f14cdc2d3818e13b53a3510167cbe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 43/65] fix: make switches of the tuning mode safe against
 concurrent writes

The tuning mode was tested without the lock that protects its changes,
thus a value set through a handle could be written after the tuning mode
had been switched on.
---
 parameter/ElementHandle.cpp | 6 +++---
 parameter/ParameterMgr.cpp  | 5 +++--
 parameter/ParameterMgr.h    | 3 ++-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/parameter/ElementHandle.cpp b/parameter/ElementHandle.cpp
index cd636a3..3ba289c 100644
--- a/parameter/ElementHandle.cpp
+++ b/parameter/ElementHandle.cpp
@@ -202,6 +202,9 @@ bool ElementHandle::setAs(const T value, string &error) const
     // Safe downcast thanks to isParameter check in checkSetValidity
     auto &parameter = static_cast<CBaseParameter &>(mElement);
 
+    // Ensure we're safe against blackboard foreign access and tuning mode changes
+    lock_guard<mutex> autoLock(mParameterMgr.getBlackboardMutex());
+
     // When in tuning mode, silently skip "set" requests
     if (mParameterMgr.tuningModeOn()) {
 
@@ -214,9 +217,6 @@ bool ElementHandle::setAs(const T value, string &error) const
     // copy the value
     T copy = value;
 
-    // Ensure we're safe against blackboard foreign access
-    lock_guard<mutex> autoLock(mParameterMgr.getBlackboardMutex());
-
     return parameter.access(copy, true, parameterAccessContext);
 }
 
diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index c2a91d4..dddb3ec 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -2130,6 +2130,9 @@ bool CParameterMgr::accessValue(CParameterAccessContext &parameterAccessContext,
 // Tuning mode
 bool CParameterMgr::setTuningMode(bool bOn, string &strError)
 {
+    // Lock state
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     if (bOn == tuningModeOn()) {
         strError = "Tuning mode is already in the state requested";
         return false;
@@ -2141,8 +2144,6 @@ bool CParameterMgr::setTuningMode(bool bOn, string &strError)
 
         return false;
     }
-    // Lock state
-    lock_guard<mutex> autoLock(getBlackboardMutex());
 
     // Warn domains about exiting tuning mode
     if (!bOn) {
diff --git a/parameter/ParameterMgr.h b/parameter/ParameterMgr.h
index 61177a2..8d9047a 100644
--- a/parameter/ParameterMgr.h
+++ b/parameter/ParameterMgr.h
@@ -29,6 +29,7 @@
  */
 #pragma once
 
+#include <atomic>
 #include <mutex>
 #include <map>
 #include <vector>
@@ -844,7 +845,7 @@ private:
     inline core::log::details::Warning warning();
 
     // Tuning
-    bool _bTuningModeIsOn{false};
+    std::atomic<bool> _bTuningModeIsOn{false};
 
     // Value Space
     bool _bValueSpaceIsRaw{false};
-- 
2.43.0


From b56d1ca4a7e1079691c708bc97a9fd503cde3152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 44/65] fix: let the domain generator run without a schemas
 directory

---
 tools/xmlGenerator/domainGenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/xmlGenerator/domainGenerator.py b/tools/xmlGenerator/domainGenerator.py
index 12a26f1..b1c471b 100755
--- a/tools/xmlGenerator/domainGenerator.py
+++ b/tools/xmlGenerator/domainGenerator.py
@@ -206,7 +206,7 @@ def main():
                             fake_toplevel_config.name,
                             'verbose' if args.verbose else 'no-verbose',
                             'validate' if args.validate else 'no-validate',
-                            args.schemas_dir],
+                            args.schemas_dir or ''],
                            stdout=sys.stdout, stdin=subprocess.PIPE, stderr=sys.stderr)
 
     initial_settings = None
-- 
2.43.0


From 5df3ac31a86ae3d1ec797660b885c83af87d0a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:41 +0000
Subject: [PATCH 45/65] fix: accept absolute structure paths in the domain
 generator

---
 tools/xmlGenerator/hostConfig.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/xmlGenerator/hostConfig.py b/tools/xmlGenerator/hostConfig.py
index 871f8f2..2fe5ebe 100755
--- a/tools/xmlGenerator/hostConfig.py
+++ b/tools/xmlGenerator/hostConfig.py
@@ -30,6 +30,7 @@
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 import xml.dom.minidom
+import os
 import sys
 
 def configure(infile=sys.stdin, outfile=sys.stdout, serverPort=None, structPath=None):
@@ -53,7 +54,7 @@ def configure(infile=sys.stdin, outfile=sys.stdout, serverPort=None, structPath=
 
     if structPath is not None:
         for node in dom.getElementsByTagName("StructureDescriptionFileLocation"):
-            node.setAttribute("Path", structPath + "/" + node.getAttribute("Path"))
+            node.setAttribute("Path", os.path.join(structPath, node.getAttribute("Path")))
 
     outfile.write(dom.toxml())
 
-- 
2.43.0


From f8c1f2a7c75ec673f59a660e3e77ed2788656539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:15 +0000
Subject: [PATCH 46/65] fix: write the commands of the script generator

---
 tools/xmlGenerator/PFWScriptGenerator.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tools/xmlGenerator/PFWScriptGenerator.py b/tools/xmlGenerator/PFWScriptGenerator.py
index 145295d..506cfee 100755
--- a/tools/xmlGenerator/PFWScriptGenerator.py
+++ b/tools/xmlGenerator/PFWScriptGenerator.py
@@ -33,6 +33,11 @@ from PfwBaseTranslator import PfwBaseTranslator
 
 import argparse
 import sys
+# For Python 2.x/3.x compatibility
+try:
+    from pipes import quote
+except ImportError:
+    from shlex import quote
 
 class PfwScriptTranslator(PfwBaseTranslator):
 
@@ -141,7 +146,10 @@ def main ():
         if options.output_kind == 'pfw':
             translator = PfwScriptTranslator()
             myroot.translate(translator)
-            options.output.write("\n".join(translator.getScript()))
+            # one command per line, each argument being quoted for the shell
+            options.output.write("\n".join(
+                " ".join(quote(argument) for argument in command)
+                for command in translator.getScript()))
 
 # execute main function if the python interpreter is running this module as the main program
 if __name__ == "__main__" :
-- 
2.43.0


From 0e64182ae7ec5f50aeff44f79dc1708f87224641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:26 +0000
Subject: [PATCH 47/65] fix: do not set the sequence of configurations without
 elements

---
 tools/xmlGenerator/PfwBaseTranslator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/xmlGenerator/PfwBaseTranslator.py b/tools/xmlGenerator/PfwBaseTranslator.py
index 0d08565..c0256e3 100644
--- a/tools/xmlGenerator/PfwBaseTranslator.py
+++ b/tools/xmlGenerator/PfwBaseTranslator.py
@@ -125,6 +125,10 @@ class PfwBaseTranslator(object):
         if not self._ctx_sequence_aware:
             return
 
+        # There is no order to set
+        if not paths:
+            return
+
         self._check(self._doSetElementSequence)(paths)
 
     def setRule(self, rule):
-- 
2.43.0


From 527244017d0c40ecc6571cd05534de61c405420a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:33 +0000
Subject: [PATCH 48/65] fix: keep the order of the parameters of sequence aware
 domains

---
 tools/xmlGenerator/EddParser.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/tools/xmlGenerator/EddParser.py b/tools/xmlGenerator/EddParser.py
index 7f8a5b9..2ed5e6a 100755
--- a/tools/xmlGenerator/EddParser.py
+++ b/tools/xmlGenerator/EddParser.py
@@ -354,13 +354,12 @@ class GroupPath (Path, ElementWithTag) :
 
         pathNames = []
 
-        paths = self.extractChildrenByClass([Path])
-        for path in paths :
-            pathNames.append(path.getName())
-
-        groupPaths = self.extractChildrenByClass([GroupPath])
-        for groupPath in groupPaths :
-            pathNames += groupPath.getPathNames()
+        # keep the order of the file: it is the one sequence aware domains follow
+        for child in self.extractChildrenByClass([Path, GroupPath]) :
+            if child.__class__ == GroupPath :
+                pathNames += child.getPathNames()
+            else :
+                pathNames.append(child.getName())
 
         return pathNames
 
-- 
2.43.0


From f9d0cd9776c7e855fbf648b006dcb6d56db55378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:32 +0000
Subject: [PATCH 49/65] fix: only take whole lines for operators

---
 tools/xmlGenerator/EddParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/xmlGenerator/EddParser.py b/tools/xmlGenerator/EddParser.py
index 2ed5e6a..e9578c6 100755
--- a/tools/xmlGenerator/EddParser.py
+++ b/tools/xmlGenerator/EddParser.py
@@ -401,7 +401,7 @@ class Operator (Rule) :
 
     tag = "operator"
     optionNames = ["Name"]
-    match = re.compile(r"ANY|ALL").match
+    match = re.compile(r"(ANY|ALL)\s*$").match
     childWhiteList = ["Rule", "Operator"]
 
     syntax = { "ANY" : "Any" , "ALL" : "All"}
-- 
2.43.0


From 60ba8b18925677b7037bf74607665cb90fcbc17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:40 +0000
Subject: [PATCH 50/65] fix: complete the name of a plug-in library of two
 letters

A library name shorter than the suffix by one was taken for one which ends with it:
the position of the suffix, not found, equals the difference of the lengths.
---
 utility/DynamicLibrary.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utility/DynamicLibrary.cpp b/utility/DynamicLibrary.cpp
index 40ffecb..11e5032 100644
--- a/utility/DynamicLibrary.cpp
+++ b/utility/DynamicLibrary.cpp
@@ -32,7 +32,9 @@
 
 std::string DynamicLibrary::osSanitizePathName(const std::string &path)
 {
-    if (path.rfind(_osLibrarySuffix) == (path.length() - _osLibrarySuffix.length())) {
+    if (path.length() >= _osLibrarySuffix.length() &&
+        path.compare(path.length() - _osLibrarySuffix.length(), _osLibrarySuffix.length(),
+                     _osLibrarySuffix) == 0) {
 
         return path;
     }
-- 
2.43.0


From 41a9e4e7561df3c622bfef211e98e807abf6e9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:27 +0000
Subject: [PATCH 51/65] fix: recognize applied configurations in logs

The framework quotes the names of configurations and domains with single
quotes, while the coverage tool looked for double ones: no configuration was
ever reported as applied.
---
 tools/coverage/coverage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/coverage/coverage.py b/tools/coverage/coverage.py
index 0a23285..7507d8e 100755
--- a/tools/coverage/coverage.py
+++ b/tools/coverage/coverage.py
@@ -734,7 +734,7 @@ class ParsePFWlog():
         self.criteria = criteria;
         self.ErrorsToIgnore = ErrorsToIgnore
 
-        configApplicationRegext = r""".*Applying configuration "(.*)" from domain "([^"]*)"""
+        configApplicationRegext = r""".*Applying configuration '(.*)' from domain '([^\n\r]*)'"""
         matchConfigApplicationLine = re.compile(configApplicationRegext).match
 
         criterionCreationRegext = ", ".join([
-- 
2.43.0


From f9157af927d7515329b4bef04589c20c1b72df1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:27 +0000
Subject: [PATCH 52/65] fix: evaluate rules on several values in the coverage
 tool

Values of inclusive criteria may name several states, or none. The tool took
them for the name of one state: applications the framework rightly made were
reported as errors.
---
 tools/coverage/coverage.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/tools/coverage/coverage.py b/tools/coverage/coverage.py
index 7507d8e..fb5bde9 100755
--- a/tools/coverage/coverage.py
+++ b/tools/coverage/coverage.py
@@ -397,7 +397,7 @@ class CriterionRule(FromDomElement, DomPopulatedElement, Rule):
     childClasses = []
     isApplicableOperations = {
                 "Includes" : lambda criterion, value:     criterion.stateIncludes(value),
-                "Excludes" : lambda criterion, value: not criterion.stateIncludes(value),
+                "Excludes" : lambda criterion, value:     criterion.stateExcludes(value),
                 "Is"       : lambda criterion, value:     criterion.stateIs(value),
                 "IsNot"    : lambda criterion, value: not criterion.stateIs(value)
             }
@@ -665,22 +665,26 @@ class Criterion(Element):
         return Criterion(self.name, self.isInclusif, subStateNames, subStateNames,
             ignoreIntegrity=True)
 
-    def stateIncludes(self, subStateName):
-        subStateCurrentNames = list(self._getElementNames(self.currentState))
+    def _splitState(self, state):
+        """Return the set of the substates a rule value stands for"""
+        if not self.isInclusif :
+            return {state}
+        return set(state.split("|")) - {"", "none"}
 
-        self.debug("Testing if %s is included in %s" % (subStateName, subStateCurrentNames))
+    def _currentStateNames(self):
+        return set(self._getElementNames(self.currentState))
 
-        isIncluded = subStateName in subStateCurrentNames
-        self.debug("IsIncluded: %s" % isIncluded)
+    def stateIncludes(self, state):
+        """All the substates of the value are set"""
+        return self._splitState(state) <= self._currentStateNames()
 
-        return isIncluded
+    def stateExcludes(self, state):
+        """None of the substates of the value is set"""
+        return self._splitState(state).isdisjoint(self._currentStateNames())
 
-
-    def stateIs(self, subStateNames):
-        if len(self.currentState) != 1 :
-            return False
-        else :
-            return self.stateIncludes(subStateNames)
+    def stateIs(self, state):
+        """The substates of the value are set, and no other"""
+        return self._splitState(state) == self._currentStateNames()
 
     def _getXMLAttributes(self):
         attributes = super()._getXMLAttributes()
-- 
2.43.0


From 85860399ae8c851f3dd8df295ec2898de2bd4855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:27 +0000
Subject: [PATCH 53/65] fix: use the logged state of criteria when the
 framework restarts

The coverage tool put criteria that the log declares again back to the state
they had at the first start rather than to the state logged.
---
 tools/coverage/coverage.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/tools/coverage/coverage.py b/tools/coverage/coverage.py
index fb5bde9..c825ee1 100755
--- a/tools/coverage/coverage.py
+++ b/tools/coverage/coverage.py
@@ -626,12 +626,7 @@ class Criterion(Element):
             self.addChild(CriterionState(state))
 
         self.currentState = []
-        self.initStateNamesList = list(currentStateNamesList)
-        self.changeState(self.initStateNamesList, ignoreIntegrity)
-
-    def reset(self):
-        # Set current state as provided at initialisation
-        self.changeState(self.initStateNamesList, ignoreIntegrity=True)
+        self.changeState(list(currentStateNamesList), ignoreIntegrity)
 
     def changeState(self, subStateNames, ignoreIntegrity=False):
         self.debug("Changing state from: %s to: %s" % (
@@ -799,7 +794,7 @@ class ParsePFWlog():
             logger.warning("Reseting criterion %s. Did you reset the PFW ?" % criterionName)
             self.criteria.operationOnChild(
                 [criterionName],
-                lambda criterion: criterion.reset()
+                lambda criterion: criterion.changeState(currentcriterionStateList)
             )
 
 
-- 
2.43.0


From 849882f9400e6645ca05970644691749342e0991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:27 +0000
Subject: [PATCH 54/65] fix: accept the long options of aplog2coverage.sh

--regexp made the script loop for ever, as --ouput did, and --output was
refused.
---
 tools/coverage/aplog2coverage.sh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/coverage/aplog2coverage.sh b/tools/coverage/aplog2coverage.sh
index 5e0e59c..28ff8af 100755
--- a/tools/coverage/aplog2coverage.sh
+++ b/tools/coverage/aplog2coverage.sh
@@ -41,7 +41,7 @@ help () {
     echo "Supported options:
   -h, --help            Display this help
   -d, --domains         The domain xml file
-  -o, --ouput           Output the report to a file instead of stdout
+  -o, --output          Output the report to a file instead of stdout
   -e, --regexp          A regex to filter (egrep) logs in order to keep only the PFW log lines
   -f, --force           Force log parser to continue on ignorable errors
   -p, --parser_option   Options to apply to the log parser"
@@ -61,7 +61,7 @@ coverage_report_generator_options=""
 
 # Parse command line arguments
 ARGS="$(getopt --options "hd:o:e:p:f" \
-               --longoptions "help,domains:,ouput:,regexp:,parser_option:,force" \
+               --longoptions "help,domains:,output:,regexp:,parser_option:,force" \
                --name "$0" -- "$@" )"
 
 eval set -- "$ARGS"
@@ -85,7 +85,7 @@ do
             outputFile="$1"
             shift
             ;;
-        -e|--regex)
+        -e|--regexp)
             shift
             filterRegex="$1"
             shift
-- 
2.43.0


From 5b8af8a65e94afb8f53ab0ca9e4f8342403d36d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:28 +0000
Subject: [PATCH 55/65] fix: keep floating-point attributes exact in exported
 XML

Bounds of floating-point parameters were exported with six decimals: small
ones became 0, and the exported structure accepted other values than the one
it describes.
---
 xmlserializer/XmlElement.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/xmlserializer/XmlElement.cpp b/xmlserializer/XmlElement.cpp
index 2e1ba87..45ea4be 100644
--- a/xmlserializer/XmlElement.cpp
+++ b/xmlserializer/XmlElement.cpp
@@ -32,6 +32,9 @@
 #include <libxml/tree.h>
 #include "convert.hpp"
 #include <stdlib.h>
+#include <limits>
+#include <locale>
+#include <sstream>
 #include <stdexcept>
 
 using std::string;
@@ -218,6 +221,29 @@ void CXmlElement::setAttribute(const string &name, const char *value)
     xmlNewProp(_pXmlElement, BAD_CAST name.c_str(), BAD_CAST value);
 }
 
+template <typename T>
+static std::string floatingPointAttribute(T value)
+{
+    // With all the digits needed to read the same number back
+    std::ostringstream stream;
+    stream.imbue(std::locale::classic());
+    stream.precision(std::numeric_limits<T>::max_digits10);
+    stream << value;
+    return stream.str();
+}
+
+template <>
+void CXmlElement::setAttribute<float>(const string &name, const float &value)
+{
+    setAttribute(name, floatingPointAttribute(value).c_str());
+}
+
+template <>
+void CXmlElement::setAttribute<double>(const string &name, const double &value)
+{
+    setAttribute(name, floatingPointAttribute(value).c_str());
+}
+
 template <typename T>
 void CXmlElement::setAttribute(const std::string &name, const T &value)
 {
-- 
2.43.0


From 2af7cac46e545979a8811c4c2da1676b4bb48bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 56/65] fix: keep the criteria when a simulated vector sets
 none

An empty setCriterion action reset all the criteria to their default values
while any other one keeps the values of the criteria it does not mention.
---
 .../clientsimulator/testGenerator/TestVectorFactory.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/clientSimulator/clientsimulator/testGenerator/TestVectorFactory.py b/tools/clientSimulator/clientsimulator/testGenerator/TestVectorFactory.py
index 94bbf75..fe7c8ed 100644
--- a/tools/clientSimulator/clientsimulator/testGenerator/TestVectorFactory.py
+++ b/tools/clientSimulator/clientsimulator/testGenerator/TestVectorFactory.py
@@ -62,7 +62,7 @@ class TestVectorFactory:
             # Instanciate the criterion class requested
             newCriterion = criterionClass()
 
-            if rawCriterions:
+            if rawCriterions is not None:
                 try:
                     newCriterion.currentValue = rawCriterions[
                         criterionClass.__name__]
-- 
2.43.0


From eada3d2bd76124018e45ac2e8f68d659aeee8e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 57/65] fix: unset the last value of inclusive criteria in the
 client simulator

The current values are a set, which has no append method.
---
 .../clientsimulator/criterion/InclusiveCriterion.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/clientSimulator/clientsimulator/criterion/InclusiveCriterion.py b/tools/clientSimulator/clientsimulator/criterion/InclusiveCriterion.py
index 09ec308..a623591 100644
--- a/tools/clientSimulator/clientsimulator/criterion/InclusiveCriterion.py
+++ b/tools/clientSimulator/clientsimulator/criterion/InclusiveCriterion.py
@@ -89,7 +89,7 @@ class InclusiveCriterion(Criterion):
                 "Value {} is not currently setted.".format(currentValue))
         # If there is no value, assume it's default
         if not self.__currentValues:
-            self.__currentValues.append(self.noValue)
+            self.__currentValues.add(self.noValue)
 
     def __str__(self):
         return self.__class__.__name__ + ' : ' + str(self.__currentValues)
-- 
2.43.0


From d455db2b7ef9df3e1334ea25f555f3bd15743bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 58/65] fix: accept any wrong choice in the menus of the client
 simulator

A number standing out of the menu raised an IndexError, which ended the
simulator instead of telling that the choice is invalid.
---
 .../clientsimulator/userInteraction/UserInteractor.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/clientSimulator/clientsimulator/userInteraction/UserInteractor.py b/tools/clientSimulator/clientsimulator/userInteraction/UserInteractor.py
index d695705..9037622 100644
--- a/tools/clientSimulator/clientsimulator/userInteraction/UserInteractor.py
+++ b/tools/clientSimulator/clientsimulator/userInteraction/UserInteractor.py
@@ -83,7 +83,7 @@ class UserInteractor:
                     raise KeyError(choice)
 
                 options[choice][1]()
-            except (KeyError, ValueError) as e:
+            except (LookupError, ValueError) as e:
                 print("Invalid Choice : {}".format(e))
 
     def launchInteractiveMode(self):
-- 
2.43.0


From 037e9751fcc83a6eb1c46b32391d51628b152c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 59/65] fix: offer all the values of criteria in the client
 simulator

The value of exclusive criteria was searched for the other ones as substrings,
hence those it contains could not be chosen. InclusiveCriterion was not
imported either.
---
 .../clientsimulator/userInteraction/UserInteractor.py     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tools/clientSimulator/clientsimulator/userInteraction/UserInteractor.py b/tools/clientSimulator/clientsimulator/userInteraction/UserInteractor.py
index 9037622..33af424 100644
--- a/tools/clientSimulator/clientsimulator/userInteraction/UserInteractor.py
+++ b/tools/clientSimulator/clientsimulator/userInteraction/UserInteractor.py
@@ -28,6 +28,7 @@
 
 from clientsimulator.criterion.InclusiveCriterion import InclusiveCriterion
 from clientsimulator.testGenerator.TestLauncher import TestLauncher
+from clientsimulator.criterion.InclusiveCriterion import InclusiveCriterion
 from clientsimulator.userInteraction.DynamicCallHelper import DynamicCallHelper
 
 
@@ -140,8 +141,13 @@ class UserInteractor:
         """
 
         optionEditCriterion = []
+        if InclusiveCriterion in criterion.__class__.__bases__:
+            currentValues = criterion.currentValue
+        else:
+            currentValues = [criterion.currentValue]
+
         for possibleValue in [x for x in criterion.allowedValues()
-                              if not x in criterion.currentValue
+                              if not x in currentValues
                               and not x == criterion.noValue]:
             optionEditCriterion.append(
                 ("Set {}".format(possibleValue),
-- 
2.43.0


From 9ed79005eb776b65689962824932836b986f0e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 60/65] fix: let the client simulator generate the coverage

Once asked to close, all processes launched were interrupted at once: the
coverage tool never ran to its end.
---
 .../clientsimulator/testGenerator/SubprocessLogger.py      | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/clientSimulator/clientsimulator/testGenerator/SubprocessLogger.py b/tools/clientSimulator/clientsimulator/testGenerator/SubprocessLogger.py
index bd73dae..e33b5ed 100644
--- a/tools/clientSimulator/clientsimulator/testGenerator/SubprocessLogger.py
+++ b/tools/clientSimulator/clientsimulator/testGenerator/SubprocessLogger.py
@@ -112,8 +112,13 @@ class SubprocessLoggerThread(threading.Thread):
 
     @classmethod
     def closeAll(cls):
-        """ Set the closeEvent to ask the thread to die  """
+        """ Set the closeEvent to ask the thread to die, and wait for them  """
         cls.__closeEvent.set()
+        for thread in threading.enumerate():
+            if isinstance(thread, cls):
+                thread.join()
+        # Processes launched afterwards (coverage) should not be killed
+        cls.__closeEvent.clear()
 
     def __cleanup(self):
         """
-- 
2.43.0


From 52e6f56427f9e8cae85e197f5e2bc1d35341e2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 61/65] fix: end the client simulator on errors

An exception while playing a scenario left test-platform running, which the
simulator waited for without end.
---
 tools/clientSimulator/pfClientSimulator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/clientSimulator/pfClientSimulator.py b/tools/clientSimulator/pfClientSimulator.py
index f58c838..82eeede 100755
--- a/tools/clientSimulator/pfClientSimulator.py
+++ b/tools/clientSimulator/pfClientSimulator.py
@@ -209,6 +209,10 @@ def main():
                 UserInteractor.getMenu(scenarioOptions, "Quit")
     except KeyboardInterrupt as e:
         close(logger, testLauncher, args.coverage)
+    except Exception:
+        # Do not wait for ever for test-platform
+        SubprocessLoggerThread.closeAll()
+        raise
     else:
         close(logger, testLauncher, args.coverage)
 
-- 
2.43.0


From d051e1964ed56b17058e4c36e945c341ec53ab71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:03 +0000
Subject: [PATCH 62/65] fix: accept the documented -i option of the client
 simulator

---
 tools/clientSimulator/pfClientSimulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/clientSimulator/pfClientSimulator.py b/tools/clientSimulator/pfClientSimulator.py
index 82eeede..38039f7 100755
--- a/tools/clientSimulator/pfClientSimulator.py
+++ b/tools/clientSimulator/pfClientSimulator.py
@@ -107,7 +107,7 @@ def main():
                                       " implicit if neither '--scenario' nor '--interactive' are "
                                       " passed).")
 
-    interactiveness.add_argument("--interactive", action='store_true',
+    interactiveness.add_argument("-i", "--interactive", action='store_true',
                                  help="run in interactive mode (lets you select actions and scripts"
                                  " to run).")
 
-- 
2.43.0


From 0b79d84911dc9557216c734a44746eca8ed5bdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:27 +0000
Subject: [PATCH 63/65] fix: make all the functions of the Python interface
 callable

restoreConfiguration, getSequenceAwareness, getParameterMapping,
getNumericalValue and getLiteralValue took references to C++ lists, booleans,
strings or integers, which Python has no way to provide.
---
 bindings/python/pfw.i | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/bindings/python/pfw.i b/bindings/python/pfw.i
index a1bfe62..b090b17 100644
--- a/bindings/python/pfw.i
+++ b/bindings/python/pfw.i
@@ -46,17 +46,27 @@
 
 %include "std_string.i"
 %include "std_vector.i"
+%include "std_list.i"
 %include "typemaps.i"
 
 // We need to tell SWIG that std::vector<std::string> is a vector of strings
 namespace std {
     %template(StringVector) vector<string>;
+    %template(StringList) list<string>;
 }
 
 // Tells swig that 'std::string& strError' must be treated as output parameters
 // TODO: make it return a tuple instead of a list
 %apply std::string &OUTPUT { std::string& strError };
 
+// Same thing for lists of errors
+%typemap(in, numinputs=0) std::list<std::string>& strError (std::list<std::string> errors) {
+    $1 = &errors;
+}
+%typemap(argout) std::list<std::string>& strError {
+    %append_output(swig::from(*$1));
+}
+
 // Automatic python docstring generation
 // FIXME: because of the typemap above, the output type is wrong for methods
 // that can return an error string.
@@ -126,7 +136,9 @@ public:
     bool accessConfigurationValue(const std::string &strDomain, const std::string &strConfiguration, const std::string& strPath, std::string& strValue, bool bSet, std::string& strError);
 %clear std::string& strValue;
 
+%apply std::string &OUTPUT { std::string& strValue };
     bool getParameterMapping(const std::string& strPath, std::string& strValue) const;
+%clear std::string& strValue;
 
     // Creation/Deletion
     bool createDomain(const std::string& strName, std::string& strError);
@@ -135,7 +147,9 @@ public:
     bool deleteAllDomains(std::string& strError);
 %apply std::string &OUTPUT { std::string& strResult }
     bool setSequenceAwareness(const std::string& strName, bool bSequenceAware, std::string& strResult);
+%apply bool &OUTPUT { bool& bSequenceAware }
     bool getSequenceAwareness(const std::string& strName, bool& bSequenceAware, std::string& strResult);
+%clear bool& bSequenceAware;
 %clear std::string& strResult;
     bool createConfiguration(const std::string& strDomain, const std::string& strConfiguration, std::string& strError);
     bool deleteConfiguration(const std::string& strDomain, const std::string& strConfiguration, std::string& strError);
@@ -207,8 +221,12 @@ class ISelectionCriterionTypeInterface
 
 public:
     virtual bool addValuePair(int iValue, const std::string& strValue, std::string& strError) = 0;
+%apply int &OUTPUT { int& iValue };
     virtual bool getNumericalValue(const std::string& strValue, int& iValue) const = 0;
+%clear int& iValue;
+%apply std::string &OUTPUT { std::string& strValue };
     virtual bool getLiteralValue(int iValue, std::string& strValue) const = 0;
+%clear std::string& strValue;
     virtual bool isTypeInclusive() const = 0;
     virtual std::string getFormattedState(int iValue) const = 0;
 
-- 
2.43.0


From 50f82a02e447a128dd5daba81ead7f05c3f3eee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:06 +0000
Subject: [PATCH 64/65] fix: Let the settings schema accept negative zero

A floating point parameter holding -0 is exported as "-0", which the schema
refused: such an export could not be imported back with schema validation.
---
 schemas/ParameterSettings.xsd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemas/ParameterSettings.xsd b/schemas/ParameterSettings.xsd
index d95a17d..ab83398 100644
--- a/schemas/ParameterSettings.xsd
+++ b/schemas/ParameterSettings.xsd
@@ -43,7 +43,7 @@
 	<xs:complexType name="PointParameterType">
 		<xs:simpleContent>
 			<xs:restriction base="ParameterType">
-				<xs:pattern value="((0|[+-]?0\.[0-9]+|(([+-]?[1-9][0-9]*)(\.[0-9]+)?))([Ee][+-]?[0-9]+)?)(\s+(0|[+-]?0\.[0-9]+|(([+-]?[1-9][0-9]*)(\.[0-9]+)?))([Ee][+-]?[0-9]+)?)*"/>
+				<xs:pattern value="(([+-]?0(\.[0-9]+)?|(([+-]?[1-9][0-9]*)(\.[0-9]+)?))([Ee][+-]?[0-9]+)?)(\s+([+-]?0(\.[0-9]+)?|(([+-]?[1-9][0-9]*)(\.[0-9]+)?))([Ee][+-]?[0-9]+)?)*"/>
 				<xs:pattern value="(0x[0-9a-fA-F]+)(\s+(0x[0-9a-fA-F]+))*"/>
 			</xs:restriction>
 		</xs:simpleContent>
-- 
2.43.0


From 8b764ea7057004efb001e52997a6139a9a857808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:30 +0000
Subject: [PATCH 65/65] fix: Delete the element builder which another one
 replaces

A plug-in listed twice, or two which register the same subsystem type, left the
first builder of the type unreachable: it was never freed.
---
 parameter/ElementLibrary.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parameter/ElementLibrary.cpp b/parameter/ElementLibrary.cpp
index aaeaa08..031d0bc 100644
--- a/parameter/ElementLibrary.cpp
+++ b/parameter/ElementLibrary.cpp
@@ -60,7 +60,14 @@ CElement *CElementLibrary::createElement(const CXmlElement &xmlElement) const
 void CElementLibrary::addElementBuilder(const std::string &type,
                                         const CElementBuilder *pElementBuilder)
 {
-    _elementBuilderMap[type] = pElementBuilder;
+    const CElementBuilder *&pBuilder = _elementBuilderMap[type];
+
+    if (pBuilder != pElementBuilder) {
+
+        // A builder which is replaced is of no use anymore
+        delete pBuilder;
+        pBuilder = pElementBuilder;
+    }
 }
 
 std::string CElementLibrary::getBuilderType(const CXmlElement &xmlElement) const
-- 
2.43.0


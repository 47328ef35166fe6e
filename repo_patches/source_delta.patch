From 0941d23d7496931108cf9415f5becf7b493045dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 01/35] fix: ParameterBlackboard: access check must not wrap
 around

offset + size may exceed the range of size_t, in which case an access far
outside of the blackboard was considered valid.
---
 parameter/ParameterBlackboard.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parameter/ParameterBlackboard.cpp b/parameter/ParameterBlackboard.cpp
index eaa6b97..b55938d 100644
--- a/parameter/ParameterBlackboard.cpp
+++ b/parameter/ParameterBlackboard.cpp
@@ -133,7 +133,7 @@ void CParameterBlackboard::saveTo(CParameterBlackboard *pToBlackboard, size_t of
 
 void CParameterBlackboard::assertValidAccess(size_t offset, size_t size) const
 {
-    ALWAYS_ASSERT(offset + size <= getSize(),
+    ALWAYS_ASSERT(size <= getSize() && offset <= getSize() - size,
                   "Invalid data size access: offset=" << offset << " size=" << size
                                                       << "reference size=" << getSize());
 }
-- 
2.43.0


From 3da173a5247da9088475d2c88476c32fd775ccfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 02/35] fix: IntegerParameterType: compare numbers with the
 range in a type wide enough

Writing an unsigned number to a signed parameter, or a signed one to an
unsigned parameter, compared it with bounds converted to the user's type:
in-range numbers were refused and out-of-range ones could be accepted.
---
 parameter/IntegerParameterType.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parameter/IntegerParameterType.h b/parameter/IntegerParameterType.h
index 797cd44..6133834 100644
--- a/parameter/IntegerParameterType.h
+++ b/parameter/IntegerParameterType.h
@@ -72,8 +72,9 @@ private:
                         CParameterAccessContext &parameterAccessContext) const
     {
         {
-            if (userValue < static_cast<UserType>(_min) ||
-                userValue > static_cast<UserType>(_max)) {
+            // Compare in a type able to represent any user value and any range
+            const int64_t value = userValue;
+            if (value < _min || value > _max) {
 
                 parameterAccessContext.setError("Value out of range");
                 return false;
-- 
2.43.0


From b402df20edcc1cef3330145f9ba27e19c7c2adff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:15 +0000
Subject: [PATCH 03/35] fix: IntegerParameterType: no sign extension when an
 unsigned parameter is read as a signed number

---
 parameter/BaseIntegerParameterType.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/parameter/BaseIntegerParameterType.cpp b/parameter/BaseIntegerParameterType.cpp
index 16c60bf..a002a74 100644
--- a/parameter/BaseIntegerParameterType.cpp
+++ b/parameter/BaseIntegerParameterType.cpp
@@ -58,13 +58,8 @@ bool CBaseIntegerParameterType::fromBlackboard(uint32_t &uiUserValue, uint32_t u
 bool CBaseIntegerParameterType::fromBlackboard(int32_t &iUserValue, uint32_t uiValue,
                                                CParameterAccessContext & /*ctx*/) const
 {
-    int32_t iValue = uiValue;
-
-    // Sign extend
-    signExtend(iValue);
-
-    // Do assign
-    iUserValue = iValue;
+    // Do assign, with sign extension for signed types only
+    iUserValue = toPlainInteger(uiValue);
 
     return true;
 }
-- 
2.43.0


From 1ef625e135af394688abe33fdab6ed201b31882d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:48 +0000
Subject: [PATCH 04/35] fix: ParameterType: keep all the bits of a 32 bit value

The mask was computed by shifting a 32 bit one by 32, hence was 0: a 32 bit
enum was always shown as 0x00000000 in raw hexadecimal format.
---
 parameter/ParameterType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parameter/ParameterType.cpp b/parameter/ParameterType.cpp
index 5472f27..b032d5c 100644
--- a/parameter/ParameterType.cpp
+++ b/parameter/ParameterType.cpp
@@ -203,7 +203,7 @@ uint32_t CParameterType::makeEncodable(uint32_t uiData) const
 {
     size_t sizeInBits = getSize() * 8;
 
-    uint32_t uiMask = (1 << sizeInBits) - 1;
+    uint32_t uiMask = static_cast<uint32_t>((uint64_t(1) << sizeInBits) - 1);
 
     return uiData & uiMask;
 }
-- 
2.43.0


From e390bd9125ecbbacc783450dffa851ca83e7ceab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:48 +0000
Subject: [PATCH 05/35] fix: EnumParameterType: refuse raw values which do not
 fit the parameter

The bits above the parameter's size were dropped, hence a number which is not
in the numerical space was accepted in place of another one.
---
 parameter/EnumParameterType.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parameter/EnumParameterType.cpp b/parameter/EnumParameterType.cpp
index 468b6c6..2e099a3 100644
--- a/parameter/EnumParameterType.cpp
+++ b/parameter/EnumParameterType.cpp
@@ -168,6 +168,16 @@ bool CEnumParameterType::toBlackboard(int32_t userValue, uint32_t &value,
 {
     // Take care of format
     if (parameterAccessContext.valueSpaceIsRaw()) {
+
+        // Raw values are provided on the parameter's size, with or without sign extension
+        uint32_t rawValue = static_cast<uint32_t>(userValue);
+
+        if (!isEncodable(rawValue, false) && !isEncodable(rawValue, true)) {
+
+            parameterAccessContext.setError("Value " + std::to_string(userValue) +
+                                            " is not encodable on the size of " + getKind());
+            return false;
+        }
         signExtend(userValue);
     }
 
-- 
2.43.0


From 451fbc34e2472309abd4d743036c3f55fbd5a225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 06/35] fix: EnumParameterType: accept the raw notation of
 negative 32 bit values

Such values are output as unsigned numbers in raw value space, which could not
be written back.
---
 parameter/EnumParameterType.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parameter/EnumParameterType.cpp b/parameter/EnumParameterType.cpp
index 2e099a3..e311ed4 100644
--- a/parameter/EnumParameterType.cpp
+++ b/parameter/EnumParameterType.cpp
@@ -102,7 +102,13 @@ bool CEnumParameterType::toBlackboard(const string &strValue, uint32_t &uiValue,
         // If it fails to parse as an integer, first try to convert it from
         // lexical to numerical space.
         int32_t iNumerical;
-        if (not getNumerical(strValue, iNumerical)) {
+        uint32_t rawValue;
+        if (parameterAccessContext.valueSpaceIsRaw() and getSize() == sizeof(rawValue) and
+            convertTo(strValue, rawValue)) {
+
+            // Unsigned notation of a negative 32 bit value
+            iNumerical = static_cast<int32_t>(rawValue);
+        } else if (not getNumerical(strValue, iNumerical)) {
 
             parameterAccessContext.setError("Provided value '" + strValue +
                                             "' is not part of the lexical space"
-- 
2.43.0


From eda7c50e106f6fde407cdc1654fafeec0b08eab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 07/35] fix: EnumParameterType: recognise literals which look
 like numbers

A literal such as "44100" was taken for a number, hence the value read in real
value space could not be written back, or denoted another value.
---
 parameter/EnumParameterType.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parameter/EnumParameterType.cpp b/parameter/EnumParameterType.cpp
index e311ed4..4bd75a2 100644
--- a/parameter/EnumParameterType.cpp
+++ b/parameter/EnumParameterType.cpp
@@ -97,6 +97,13 @@ bool CEnumParameterType::toBlackboard(const string &strValue, uint32_t &uiValue,
 {
     int32_t iParsedUserValue = 0;
 
+    // In real value space a literal may look like a number: it is a literal first
+    if (not parameterAccessContext.valueSpaceIsRaw() and
+        getNumerical(strValue, iParsedUserValue)) {
+
+        return toBlackboard(iParsedUserValue, uiValue, parameterAccessContext);
+    }
+
     // Try to read the user-provided string as an integer
     if (not convertTo(strValue, iParsedUserValue)) {
         // If it fails to parse as an integer, first try to convert it from
-- 
2.43.0


From aabc50149c813b6ddb3bce5bdefd9e40d101611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 08/35] fix: FloatingPointParameterType: well formed raw
 hexadecimal output

The filling zeros were output before the 0x prefix, which made the value of a
small raw pattern impossible to read back.
---
 parameter/FloatingPointParameterType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parameter/FloatingPointParameterType.cpp b/parameter/FloatingPointParameterType.cpp
index 44de9e2..5a769c2 100644
--- a/parameter/FloatingPointParameterType.cpp
+++ b/parameter/FloatingPointParameterType.cpp
@@ -212,7 +212,7 @@ bool CFloatingPointParameterType::fromBlackboard(
 
         if (parameterAccessContext.outputRawFormatIsHex()) {
 
-            ostrStream << std::showbase << std::hex << std::setw(static_cast<int>(getSize() * 2))
+            ostrStream << "0x" << std::hex << std::setw(static_cast<int>(getSize() * 2))
                        << std::setfill('0');
         }
 
-- 
2.43.0


From cac6e0d0075ca0b3f9d8a619bac896330654d38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 09/35] fix: FloatingPointParameterType: output numbers with
 enough digits

With the default precision, the text read in real value space was not the number
stored, hence exported settings were altered when imported.
---
 parameter/FloatingPointParameterType.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parameter/FloatingPointParameterType.cpp b/parameter/FloatingPointParameterType.cpp
index 5a769c2..454741e 100644
--- a/parameter/FloatingPointParameterType.cpp
+++ b/parameter/FloatingPointParameterType.cpp
@@ -222,7 +222,18 @@ bool CFloatingPointParameterType::fromBlackboard(
         // Move from "raw memory" value space to real space
         auto fValue = utility::binaryCopy<float>(uiValue);
 
-        ostrStream << fValue;
+        // Use as many digits as needed to denote this very number
+        for (int precision = std::numeric_limits<float>::digits10;
+             precision <= std::numeric_limits<float>::max_digits10; precision++) {
+
+            ostrStream.str("");
+            ostrStream << std::setprecision(precision) << fValue;
+
+            float readBack = 0.0f;
+            if (convertTo(ostrStream.str(), readBack) && readBack == fValue) {
+                break;
+            }
+        }
     }
 
     strValue = ostrStream.str();
-- 
2.43.0


From 953f23cd70c192e530bfbb2f9add2012f95bb946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 10/35] fix: ParameterAdaptation: round user values to the
 nearest integer

f(f'(a)) = a did not hold because of the truncation of results such as
2.9999999999999996. Also avoid the undefined conversion of huge numbers.
---
 parameter/ParameterAdaptation.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/parameter/ParameterAdaptation.cpp b/parameter/ParameterAdaptation.cpp
index 67b4bca..1abe854 100644
--- a/parameter/ParameterAdaptation.cpp
+++ b/parameter/ParameterAdaptation.cpp
@@ -28,6 +28,7 @@
  * SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 #include "ParameterAdaptation.h"
+#include <cmath>
 
 #define base CElement
 
@@ -75,7 +76,18 @@ bool CParameterAdaptation::fromXml(const CXmlElement &xmlElement,
 // Conversions
 int64_t CParameterAdaptation::fromUserValue(double dValue) const
 {
-    return (int64_t)dValue + _iOffset;
+    // Nearest integer: truncating would not give back the integer a user value comes from.
+    // Out of range values are kept out of the range of any parameter.
+    const double limit = 4611686018427387904.0; // 2^62
+    double rounded = std::round(dValue);
+
+    if (!(rounded > -limit)) {
+        rounded = -limit;
+    } else if (rounded > limit) {
+        rounded = limit;
+    }
+
+    return static_cast<int64_t>(rounded) + _iOffset;
 }
 
 double CParameterAdaptation::toUserValue(int64_t iValue) const
-- 
2.43.0


From fb27650487ac536a9e878fe620e1e8972cd4c86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 11/35] fix: LinearParameterAdaptation: refuse a null slope
 numerator

Converting to a user value divides by it.
---
 parameter/LinearParameterAdaptation.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parameter/LinearParameterAdaptation.cpp b/parameter/LinearParameterAdaptation.cpp
index 5c8002d..885169c 100644
--- a/parameter/LinearParameterAdaptation.cpp
+++ b/parameter/LinearParameterAdaptation.cpp
@@ -62,7 +62,13 @@ bool CLinearParameterAdaptation::fromXml(const CXmlElement &xmlElement,
                                          CXmlSerializingContext &serializingContext)
 {
     // Get SlopeNumerator
-    xmlElement.getAttribute("SlopeNumerator", _dSlopeNumerator);
+    if (xmlElement.getAttribute("SlopeNumerator", _dSlopeNumerator) && (_dSlopeNumerator == 0)) {
+
+        // Converting back to a user value divides by the numerator
+        serializingContext.setError("SlopeNumerator attribute can't be 0 on element" +
+                                    xmlElement.getPath());
+        return false;
+    }
 
     // Get SlopeDenominator
     if (xmlElement.getAttribute("SlopeDenominator", _dSlopeDenominator) &&
-- 
2.43.0


From f2e139f9440074cbca7978091fba7bb4fc697539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 12/35] fix: BitParameterType: refuse texts which are not
 numbers

Anything that does not start with a number was taken for 0 and stored.
---
 parameter/BitParameterType.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parameter/BitParameterType.cpp b/parameter/BitParameterType.cpp
index 14421f1..1790b96 100644
--- a/parameter/BitParameterType.cpp
+++ b/parameter/BitParameterType.cpp
@@ -33,6 +33,7 @@
 #include <sstream>
 #include "ParameterAccessContext.h"
 #include "BitParameterBlockType.h"
+#include "convert.hpp"
 #include "Utility.h"
 
 #define base CTypeElement
@@ -123,7 +124,14 @@ bool CBitParameterType::toBlackboard(const string &strValue, uint64_t &uiValue,
                                      CParameterAccessContext &parameterAccessContext) const
 {
     // Get value
-    uint64_t uiConvertedValue = strtoull(strValue.c_str(), nullptr, 0);
+    uint64_t uiConvertedValue = 0;
+
+    if (!convertTo(strValue, uiConvertedValue)) {
+
+        parameterAccessContext.setError("Value '" + strValue + "' is invalid for " + getKind());
+
+        return false;
+    }
 
     if (uiConvertedValue > _uiMax) {
 
-- 
2.43.0


From 5f5980c0fea1d7ef17c328900f7e31ba9003345d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 13/35] fix: BitParameterType: refuse an empty or wrapping
 range of bits

The bits of such a parameter would cover the ones of its neighbours.
---
 parameter/BitParameterType.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parameter/BitParameterType.cpp b/parameter/BitParameterType.cpp
index 1790b96..63729f9 100644
--- a/parameter/BitParameterType.cpp
+++ b/parameter/BitParameterType.cpp
@@ -87,7 +87,8 @@ bool CBitParameterType::fromXml(const CXmlElement &xmlElement,
 
     size_t uiParentBlockBitSize = pBitParameterBlockType->getSize() * 8;
 
-    if (_bitPos + _uiBitSize > uiParentBlockBitSize) {
+    if (_uiBitSize == 0 || _uiBitSize > uiParentBlockBitSize ||
+        _bitPos > uiParentBlockBitSize - _uiBitSize) {
 
         // Range exceeded
         std::ostringstream strStream;
-- 
2.43.0


From 33c8fa0c9fea47f0388ceaf5dc9e57fe49d934eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 14/35] fix: print the match value of a rule on several values
 of an inclusive criterion

---
 parameter/SelectionCriterionRule.cpp | 24 +++++++++++++++++-------
 parameter/SelectionCriterionRule.h   |  3 +++
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/parameter/SelectionCriterionRule.cpp b/parameter/SelectionCriterionRule.cpp
index 8c22045..9615f21 100644
--- a/parameter/SelectionCriterionRule.cpp
+++ b/parameter/SelectionCriterionRule.cpp
@@ -111,14 +111,28 @@ bool CSelectionCriterionRule::parse(CRuleParser &ruleParser, string &strError)
 string CSelectionCriterionRule::dump() const
 {
     // Value
-    string value;
-    _pSelectionCriterion->getCriterionType()->getLiteralValue(_iMatchValue, value);
+    string value = getMatchValueAsString();
 
     // "<Name> <Verb> <Value>"
     return string(_pSelectionCriterion->getName()) + " " +
            _astMatchesWhen[_eMatchesWhen].pcMatchesWhen + " " + value;
 }
 
+// Match value, as it may be parsed
+string CSelectionCriterionRule::getMatchValueAsString() const
+{
+    const ISelectionCriterionTypeInterface *criterionType =
+        _pSelectionCriterion->getCriterionType();
+    string value;
+
+    if (!criterionType->getLiteralValue(_iMatchValue, value)) {
+
+        // Combination of several literals of an inclusive type
+        value = criterionType->getFormattedState(_iMatchValue);
+    }
+    return value;
+}
+
 // Rule check
 bool CSelectionCriterionRule::matches() const
 {
@@ -206,11 +220,7 @@ void CSelectionCriterionRule::toXml(CXmlElement &xmlElement, CXmlSerializingCont
     xmlElement.setAttribute("MatchesWhen", _astMatchesWhen[_eMatchesWhen].pcMatchesWhen);
 
     // Set Value
-    string strValue;
-
-    _pSelectionCriterion->getCriterionType()->getLiteralValue(_iMatchValue, strValue);
-
-    xmlElement.setAttribute("Value", strValue);
+    xmlElement.setAttribute("Value", getMatchValueAsString());
 }
 
 // XML MatchesWhen attribute parsing
diff --git a/parameter/SelectionCriterionRule.h b/parameter/SelectionCriterionRule.h
index 7dac343..70b8423 100644
--- a/parameter/SelectionCriterionRule.h
+++ b/parameter/SelectionCriterionRule.h
@@ -82,6 +82,9 @@ private:
     // XML MatchesWhen attribute parsing
     bool setMatchesWhen(const std::string &strMatchesWhen, std::string &strError);
 
+    // Match value, as it may be parsed
+    std::string getMatchValueAsString() const;
+
     // Selection criterion
     const CSelectionCriterion *_pSelectionCriterion{nullptr};
 
-- 
2.43.0


From f4bf6a2df42f2a5066bafc7177bc0f5ad031feed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 15/35] fix: refuse application rules with unexpected text or
 several root rules

---
 parameter/RuleParser.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/parameter/RuleParser.cpp b/parameter/RuleParser.cpp
index e069cd1..5776516 100644
--- a/parameter/RuleParser.cpp
+++ b/parameter/RuleParser.cpp
@@ -162,7 +162,19 @@ bool CRuleParser::iterate(string &strError)
         ((delimiter = _strApplicationRule.find_first_of(_acDelimiters[_eStatus], _uiCurrentPos)) !=
          string::npos)) {
 
-        switch (_strApplicationRule[delimiter]) {
+        const char delimiterFound = _strApplicationRule[delimiter];
+
+        // A rule ends right before a closing brace or a comma, which may only stand within a
+        // compound rule
+        if ((delimiterFound == '}' || delimiterFound == ',') &&
+            (delimiter != _uiCurrentPos || (delimiterFound == ',' && !_currentDeepness))) {
+
+            strError = "Syntax error";
+
+            return false;
+        }
+
+        switch (delimiterFound) {
 
         case '{':
             _eStatus = EBeginCompoundRule;
-- 
2.43.0


From 29489a8f81646bc4dd70eda04234500487e1743e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 16/35] fix: translate a literal of an inclusive criterion
 holding the delimiter

---
 parameter/SelectionCriterionType.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parameter/SelectionCriterionType.cpp b/parameter/SelectionCriterionType.cpp
index d97d18b..f620143 100644
--- a/parameter/SelectionCriterionType.cpp
+++ b/parameter/SelectionCriterionType.cpp
@@ -92,6 +92,12 @@ bool CSelectionCriterionType::addValuePair(int iValue, const std::string &strVal
 
 bool CSelectionCriterionType::getNumericalValue(const std::string &strValue, int &iValue) const
 {
+    // A literal may hold the delimiter
+    if (getAtomicNumericalValue(strValue, iValue)) {
+
+        return true;
+    }
+
     if (_bInclusive) {
 
         Tokenizer tok(strValue, _strDelimiter);
@@ -112,7 +118,7 @@ bool CSelectionCriterionType::getNumericalValue(const std::string &strValue, int
         }
         return true;
     }
-    return getAtomicNumericalValue(strValue, iValue);
+    return false;
 }
 
 bool CSelectionCriterionType::getAtomicNumericalValue(const std::string &strValue,
-- 
2.43.0


From 967a65705d91fcec1b8dc4b7accd7d2ae4fc9586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:01 +0000
Subject: [PATCH 17/35] fix: refuse an inclusive criterion value naming no
 literal

---
 parameter/SelectionCriterionType.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parameter/SelectionCriterionType.cpp b/parameter/SelectionCriterionType.cpp
index f620143..2504b1e 100644
--- a/parameter/SelectionCriterionType.cpp
+++ b/parameter/SelectionCriterionType.cpp
@@ -116,7 +116,8 @@ bool CSelectionCriterionType::getNumericalValue(const std::string &strValue, int
             }
             iValue |= iResult;
         }
-        return true;
+        // No literal at all does not denote a state
+        return uiNbValues != 0;
     }
     return false;
 }
-- 
2.43.0


From fef3fedbdd5eb4d1a6d278cb21f26e01b6166f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 18/35] fix: refuse a wrong element sequence without reordering
 anything

---
 parameter/DomainConfiguration.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/parameter/DomainConfiguration.cpp b/parameter/DomainConfiguration.cpp
index f5d7182..7e8e40d 100644
--- a/parameter/DomainConfiguration.cpp
+++ b/parameter/DomainConfiguration.cpp
@@ -228,13 +228,12 @@ void CDomainConfiguration::removeConfigurableElement(
 bool CDomainConfiguration::setElementSequence(const std::vector<string> &newElementSequence,
                                               string &error)
 {
+    // Check the whole sequence first: a refused sequence does not reorder anything
     std::vector<string> elementSequenceSet;
-    auto insertLocation = begin(mAreaConfigurationList);
 
     for (const std::string &elementPath : newElementSequence) {
 
-        auto areaConfiguration = findAreaConfigurationByPath(elementPath);
-        if (areaConfiguration == end(mAreaConfigurationList)) {
+        if (findAreaConfigurationByPath(elementPath) == end(mAreaConfigurationList)) {
 
             error = "Element " + elementPath + " not found in domain";
 
@@ -246,6 +245,14 @@ bool CDomainConfiguration::setElementSequence(const std::vector<string> &newElem
             return false;
         }
         elementSequenceSet.push_back(elementPath);
+    }
+
+    auto insertLocation = begin(mAreaConfigurationList);
+
+    for (const std::string &elementPath : newElementSequence) {
+
+        auto areaConfiguration = findAreaConfigurationByPath(elementPath);
+
         // Take into account the new configuration order by moving the configuration associated to
         // the element to the n-th position of the configuration list.
         // It will result in prepending to the configuration list wit the configuration of all
-- 
2.43.0


From e4bf6ddfa53deacd5730caea0e62aae774da4b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:28 +0000
Subject: [PATCH 19/35] fix: report a refused split of a domain element

---
 parameter/ConfigurableDomains.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/parameter/ConfigurableDomains.cpp b/parameter/ConfigurableDomains.cpp
index 35674fd..faceb7c 100644
--- a/parameter/ConfigurableDomains.cpp
+++ b/parameter/ConfigurableDomains.cpp
@@ -310,9 +310,7 @@ bool CConfigurableDomains::split(const string &domainName, CConfigurableElement
         return false;
     }
     // Delegate
-    domain->split(element, infos);
-
-    return true;
+    return domain->split(element, infos);
 }
 
 void CConfigurableDomains::listAssociatedElements(string &strResult) const
-- 
2.43.0


From d2c71a747ace670e60eadd68f20959450be44e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 20/35] fix: store the bytes given to setElementBytes

std::transform wrote through begin() of an empty vector.
---
 parameter/ParameterMgr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index debf81d..b0bfb4a 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -92,6 +92,7 @@
 #include <stdexcept>
 #include <mutex>
 #include <iomanip>
+#include <iterator>
 #include "convert.hpp"
 
 #define base CElement
@@ -1496,7 +1497,7 @@ CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::setElementBytesComm
     auto last = remoteCommand.getArguments().cend();
 
     try {
-        std::transform(first, last, begin(bytes), [](decltype(*first) input) {
+        std::transform(first, last, std::back_inserter(bytes), [](decltype(*first) input) {
             uint8_t byte;
 
             if (!convertTo(input, byte)) {
-- 
2.43.0


From 153ca47306899706d611b1222e0c8f8d256b673e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:16 +0000
Subject: [PATCH 21/35] fix: hold the settings lock when accessing settings as
 bytes or XML

Element handles and the tuning commands read and wrote the main
blackboard without the lock when going through byte arrays or XML.
---
 parameter/ParameterMgr.cpp | 14 +++++++++++++-
 parameter/ParameterMgr.h   |  4 ++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index b0bfb4a..35ef122 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -795,6 +795,9 @@ void CParameterMgr::getSettingsAsBytes(const CConfigurableElement &element,
     CParameterAccessContext parameterAccessContext(error);
     parameterAccessContext.setParameterBlackboard(_pMainParameterBlackboard);
 
+    // Ensure we're safe against blackboard foreign access
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     // Get the settings
     element.getSettingsAsBytes(settings, parameterAccessContext);
 }
@@ -813,6 +816,9 @@ bool CParameterMgr::setSettingsAsBytes(const CConfigurableElement &element,
     parameterAccessContext.setParameterBlackboard(_pMainParameterBlackboard);
     parameterAccessContext.setAutoSync(autoSyncOn());
 
+    // Ensure we're safe against blackboard foreign access
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     // Set the settings
     return element.setSettingsAsBytes(settings, parameterAccessContext);
 }
@@ -1538,6 +1544,9 @@ bool CParameterMgr::getSettingsAsXML(const CConfigurableElement *configurableEle
     ostringstream output;
     CXmlStreamDocSink streamSink(output);
 
+    // Ensure we're safe against blackboard foreign access
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     if (not streamSink.process(memorySource, xmlParameterContext)) {
         result = error;
         return false;
@@ -1560,6 +1569,9 @@ bool CParameterMgr::setSettingsAsXML(CConfigurableElement *configurableElement,
     if (doc == nullptr) {
         return false;
     }
+    // Ensure we're safe against blackboard foreign access
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     if (not xmlParse(xmlParameterContext, configurableElement, doc, "",
                      EParameterConfigurationLibrary, false)) {
         return false;
@@ -2724,7 +2736,7 @@ bool CParameterMgr::checkTuningModeOn(string &strError) const
 }
 
 // Tuning mutex dynamic parameter handling
-std::mutex &CParameterMgr::getBlackboardMutex()
+std::mutex &CParameterMgr::getBlackboardMutex() const
 {
     return _blackboardMutex;
 }
diff --git a/parameter/ParameterMgr.h b/parameter/ParameterMgr.h
index bc0726d..5a6e2fe 100644
--- a/parameter/ParameterMgr.h
+++ b/parameter/ParameterMgr.h
@@ -630,7 +630,7 @@ private:
     bool checkTuningModeOn(std::string &strError) const;
 
     // Blackboard (dynamic parameter handling)
-    std::mutex &getBlackboardMutex();
+    std::mutex &getBlackboardMutex() const;
 
     // Blackboard reference (dynamic parameter handling)
     CParameterBlackboard *getParameterBlackboard();
@@ -878,7 +878,7 @@ private:
     size_t _maxCommandUsageLength{0};
 
     // Blackboard access mutex
-    std::mutex _blackboardMutex;
+    mutable std::mutex _blackboardMutex;
 
     /** Application main logger based on the one provided by the client */
     mutable core::log::Logger _logger;
-- 
2.43.0


From c0c915652d908caf91246ab47a43b902c5d4231f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:30 +0000
Subject: [PATCH 22/35] fix: refuse setting by XML or bytes an element which is
 not rogue

---
 parameter/ElementHandle.cpp       | 21 ++++++++++++++++++---
 parameter/include/ElementHandle.h | 11 +++++++++++
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/parameter/ElementHandle.cpp b/parameter/ElementHandle.cpp
index ecf1bcf..e7c3179 100644
--- a/parameter/ElementHandle.cpp
+++ b/parameter/ElementHandle.cpp
@@ -174,6 +174,9 @@ bool ElementHandle::getAsXML(std::string &xmlValue, std::string &error) const
 
 bool ElementHandle::setAsXML(const std::string &xmlValue, std::string &error)
 {
+    if (not checkRogue(error)) {
+        return false;
+    }
     return mParameterMgr.setSettingsAsXML(&mElement, xmlValue, error);
 }
 
@@ -190,6 +193,9 @@ bool ElementHandle::getAsBytes(std::vector<uint8_t> &bytesValue, std::string & /
 
 bool ElementHandle::setAsBytes(const std::vector<uint8_t> &bytesValue, std::string &error)
 {
+    if (not checkRogue(error)) {
+        return false;
+    }
     return mParameterMgr.setSettingsAsBytes(mElement, bytesValue, error);
 }
 
@@ -360,6 +366,17 @@ bool ElementHandle::checkGetValidity(bool asArray, string &error) const
     return true;
 }
 
+bool ElementHandle::checkRogue(string &error) const
+{
+    if (!isRogue()) {
+
+        error = "Can not set parameter \"" + getPath() + "\" as it is not rogue.";
+        return false;
+    }
+
+    return true;
+}
+
 // Access validity
 bool ElementHandle::checkSetValidity(size_t arrayLength, string &error) const
 {
@@ -368,9 +385,7 @@ bool ElementHandle::checkSetValidity(size_t arrayLength, string &error) const
         return false;
     }
 
-    if (!isRogue()) {
-
-        error = "Can not set parameter \"" + getPath() + "\" as it is not rogue.";
+    if (not checkRogue(error)) {
         return false;
     }
 
diff --git a/parameter/include/ElementHandle.h b/parameter/include/ElementHandle.h
index 7d0888a..9f49c74 100644
--- a/parameter/include/ElementHandle.h
+++ b/parameter/include/ElementHandle.h
@@ -258,6 +258,17 @@ private:
      */
     bool checkGetValidity(bool asArray, std::string &error) const;
 
+    /** Check that the element is allowed to be set, ie. that it is rogue.
+     *
+     * @param[out] error On failure (false returned) will contain a human
+     *                   readable description of the error.
+     *                   On success (true returned) the content is not
+     *                   specified.
+     *
+     * @return true if the element is rogue, false otherwise.
+     */
+    bool checkRogue(std::string &error) const;
+
     /** Reference to the handled Configurable element. */
     CConfigurableElement &mElement;
 
-- 
2.43.0


From 439592917308440935fd5356db60684678134cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:03 +0000
Subject: [PATCH 23/35] fix: refuse an empty array given to a scalar parameter

---
 parameter/ElementHandle.cpp       | 8 ++++----
 parameter/include/ElementHandle.h | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/parameter/ElementHandle.cpp b/parameter/ElementHandle.cpp
index e7c3179..3c976d7 100644
--- a/parameter/ElementHandle.cpp
+++ b/parameter/ElementHandle.cpp
@@ -202,7 +202,7 @@ bool ElementHandle::setAsBytes(const std::vector<uint8_t> &bytesValue, std::stri
 template <class T>
 bool ElementHandle::setAs(const T value, string &error) const
 {
-    if (not checkSetValidity(getUserInputSize(value), error)) {
+    if (not checkSetValidity(isVector<T>::value, getUserInputSize(value), error)) {
         return false;
     }
     // Safe downcast thanks to isParameter check in checkSetValidity
@@ -378,10 +378,10 @@ bool ElementHandle::checkRogue(string &error) const
 }
 
 // Access validity
-bool ElementHandle::checkSetValidity(size_t arrayLength, string &error) const
+bool ElementHandle::checkSetValidity(bool asArray, size_t arrayLength, string &error) const
 {
     // Settings a parameter necessitates the right to get it
-    if (not checkGetValidity(arrayLength != 0, error)) {
+    if (not checkGetValidity(asArray, error)) {
         return false;
     }
 
@@ -389,7 +389,7 @@ bool ElementHandle::checkSetValidity(size_t arrayLength, string &error) const
         return false;
     }
 
-    if (arrayLength && (arrayLength != getArrayLength())) {
+    if (asArray && (arrayLength != getArrayLength())) {
 
         using std::to_string;
         error = "Array length mismatch for \"" + getPath() + "\", expected: " +
diff --git a/parameter/include/ElementHandle.h b/parameter/include/ElementHandle.h
index 9f49c74..f9e5fe2 100644
--- a/parameter/include/ElementHandle.h
+++ b/parameter/include/ElementHandle.h
@@ -239,6 +239,7 @@ private:
 
     /** Check that the parameter value can be modify.
      *
+     * @param asArray[in] true if accessing as an array, false otherwise.
      * @param arrayLength[in] If accessing as an array: the new value array length
      *                        Otherwise: 0
      * @param error[out] If access is forbidden: a human readable message explaining why
@@ -246,7 +247,7 @@ private:
      *
      * @return true if the parameter value can be retrieved, false otherwise.
      */
-    bool checkSetValidity(size_t arrayLength, std::string &error) const;
+    bool checkSetValidity(bool asArray, size_t arrayLength, std::string &error) const;
 
     /** Check that the parameter value can be retrieved.
      *
-- 
2.43.0


From 849f474ac680b89e659aa647e0176bae15d15432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:01 +0000
Subject: [PATCH 24/35] fix: read an item of an array parameter from the right
 place of a configuration

The offset of the settings of the configuration was not taken into account, so
that the text of another item or parameter was given, or memory outside of the
settings was accessed.
---
 parameter/ArrayParameter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parameter/ArrayParameter.cpp b/parameter/ArrayParameter.cpp
index 91ea448..0154045 100644
--- a/parameter/ArrayParameter.cpp
+++ b/parameter/ArrayParameter.cpp
@@ -109,7 +109,8 @@ bool CArrayParameter::accessValue(CPathNavigator &pathNavigator, string &strValu
 
         } else {
             // Scalar requested
-            CParameter::doGetValue(strValue, getOffset() + index * getSize(),
+            CParameter::doGetValue(strValue, getOffset() - parameterAccessContext.getBaseOffset() +
+                                                 index * getSize(),
                                    parameterAccessContext);
         }
     }
-- 
2.43.0


From 8e41acfa7b8a7d9a508bcd4637715637097574fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:01 +0000
Subject: [PATCH 25/35] fix: refuse malformed array parameter indices

Trailing characters, signs and leading blanks were accepted, negative numbers
wrapping around to a valid index.
---
 parameter/ArrayParameter.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/parameter/ArrayParameter.cpp b/parameter/ArrayParameter.cpp
index 0154045..2603420 100644
--- a/parameter/ArrayParameter.cpp
+++ b/parameter/ArrayParameter.cpp
@@ -28,7 +28,8 @@
  * SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 #include "ArrayParameter.h"
-#include <sstream> // for istringstream
+#include <sstream> // for ostringstream
+#include "convert.hpp"
 #include "Tokenizer.h"
 #include "ParameterType.h"
 #include "ParameterAccessContext.h"
@@ -211,11 +212,7 @@ bool CArrayParameter::getIndex(CPathNavigator &pathNavigator, size_t &index,
     if (pStrChildName) {
 
         // Check index is numeric
-        std::istringstream iss(*pStrChildName);
-
-        iss >> index;
-
-        if (!iss) {
+        if (!convertTo(*pStrChildName, index)) {
 
             parameterAccessContext.setError("Expected numerical expression as last item in " +
                                             pathNavigator.getCurrentPath());
-- 
2.43.0


From 09ee6f4af31fa633706bc162b0c8056486ae9a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:01 +0000
Subject: [PATCH 26/35] fix: refuse strings with null characters for string
 parameters

They were accepted but truncated at the first null character.
---
 parameter/StringParameter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parameter/StringParameter.cpp b/parameter/StringParameter.cpp
index 0651bf6..320cb0d 100644
--- a/parameter/StringParameter.cpp
+++ b/parameter/StringParameter.cpp
@@ -79,6 +79,13 @@ bool CStringParameter::doSetValue(const string &strValue, size_t offset,
         return false;
     }
 
+    if (strValue.find('\0') != string::npos) {
+        // The blackboard content is null terminated: the end of the string would be lost
+        parameterAccessContext.setError("Can not set a string which contains a null character");
+
+        return false;
+    }
+
     // Write blackboard
     CParameterBlackboard *pBlackboard = parameterAccessContext.getParameterBlackboard();
 
-- 
2.43.0


From ffdd2e801a597bd1b9b6de3136a632d8586090cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:06 +0000
Subject: [PATCH 27/35] fix: refuse malformed messages instead of failing an
 assertion

A string longer than the data received, or an announced size which does not even
cover the message identifier, ended the receiver (or made it read out of the
message without assertions).
---
 remote-processor/AnswerMessage.cpp  |  9 ++++++--
 remote-processor/AnswerMessage.h    |  2 +-
 remote-processor/Message.cpp        | 32 +++++++++++++++++++++++------
 remote-processor/Message.h          | 15 ++++++++++----
 remote-processor/RequestMessage.cpp | 14 ++++++++++---
 remote-processor/RequestMessage.h   |  2 +-
 6 files changed, 57 insertions(+), 17 deletions(-)

diff --git a/remote-processor/AnswerMessage.cpp b/remote-processor/AnswerMessage.cpp
index 7ae948f..fd61127 100644
--- a/remote-processor/AnswerMessage.cpp
+++ b/remote-processor/AnswerMessage.cpp
@@ -79,12 +79,17 @@ void CAnswerMessage::fillDataToSend()
 }
 
 // Collect received data
-void CAnswerMessage::collectReceivedData()
+bool CAnswerMessage::collectReceivedData()
 {
     // Receive answer
     string strAnswer;
 
-    readString(strAnswer);
+    if (!readString(strAnswer)) {
+
+        return false;
+    }
 
     setAnswer(strAnswer);
+
+    return true;
 }
diff --git a/remote-processor/AnswerMessage.h b/remote-processor/AnswerMessage.h
index 2bc5147..f4433c4 100644
--- a/remote-processor/AnswerMessage.h
+++ b/remote-processor/AnswerMessage.h
@@ -49,7 +49,7 @@ private:
     // Fill data to send
     void fillDataToSend() override;
     // Collect received data
-    void collectReceivedData() override;
+    bool collectReceivedData() override;
 
     /** @return size of the answer message in bytes
     */
diff --git a/remote-processor/Message.cpp b/remote-processor/Message.cpp
index 66154ec..dffadcc 100644
--- a/remote-processor/Message.cpp
+++ b/remote-processor/Message.cpp
@@ -70,9 +70,12 @@ void CMessage::writeData(const void *pvData, size_t size)
     _uiIndex += size;
 }
 
-void CMessage::readData(void *pvData, size_t size)
+bool CMessage::readData(void *pvData, size_t size)
 {
-    assert(isValidAccess(_uiIndex, size));
+    if (!isValidAccess(_uiIndex, size)) {
+
+        return false;
+    }
 
     auto first = begin(mData) + _uiIndex;
     auto last = first + size;
@@ -81,6 +84,8 @@ void CMessage::readData(void *pvData, size_t size)
     std::copy(first, last, destFirst);
 
     _uiIndex += size;
+
+    return true;
 }
 
 void CMessage::writeString(const string &strData)
@@ -94,15 +99,18 @@ void CMessage::writeString(const string &strData)
     writeData(strData.c_str(), size);
 }
 
-void CMessage::readString(string &strData)
+bool CMessage::readString(string &strData)
 {
     // Size
     uint32_t uiSize;
 
-    readData(&uiSize, sizeof(uiSize));
+    if (!readData(&uiSize, sizeof(uiSize)) || !isValidAccess(_uiIndex, uiSize)) {
+
+        return false;
+    }
 
     // Data
-    std::vector<char> string(uiSize + 1);
+    std::vector<char> string(size_t(uiSize) + 1);
 
     // Content
     readData(string.data(), uiSize);
@@ -112,6 +120,8 @@ void CMessage::readString(string &strData)
 
     // Output
     strData = string.data();
+
+    return true;
 }
 
 size_t CMessage::getStringSize(const string &strData) const
@@ -220,6 +230,12 @@ CMessage::Result CMessage::serialize(Socket &&socket, bool bOut, string &strErro
             return error;
         }
 
+        if (uiSize < sizeof(_ucMsgId)) {
+
+            strError = "Message size incorrect";
+            return error;
+        }
+
         // Data
 
         // Allocate
@@ -246,7 +262,11 @@ CMessage::Result CMessage::serialize(Socket &&socket, bool bOut, string &strErro
         }
 
         // Collect data in derived
-        collectReceivedData();
+        if (!collectReceivedData() || getRemainingDataSize() != 0) {
+
+            strError = "Message content malformed";
+            return error;
+        }
     }
 
     return success;
diff --git a/remote-processor/Message.h b/remote-processor/Message.h
index 2a596f1..a3e9019 100644
--- a/remote-processor/Message.h
+++ b/remote-processor/Message.h
@@ -88,8 +88,10 @@ protected:
     *
     * @param[out] pvData pointer to the data array
     * @param[in] uiSize array size in bytes
+    *
+    * @return false if the message does not contain that much data any more, true otherwise
     */
-    void readData(void *pvData, size_t uiSize);
+    bool readData(void *pvData, size_t uiSize);
 
     /** Write string to the message
     *
@@ -100,8 +102,10 @@ protected:
     /** Write string to the message
     *
     * @param[out] strData the string to read to
+    *
+    * @return false if the message does not contain such a string, true otherwise
     */
-    void readString(std::string &strData);
+    bool readString(std::string &strData);
 
     /** @return string length plus room to store its length
     *
@@ -124,8 +128,11 @@ private:
     void allocateData(size_t uiDataSize);
     // Fill data to send
     virtual void fillDataToSend() = 0;
-    // Collect received data
-    virtual void collectReceivedData() = 0;
+    /** Collect received data
+    *
+    * @return false if the data received is malformed, true otherwise
+    */
+    virtual bool collectReceivedData() = 0;
 
     /** @return size of the transaction data in bytes
     */
diff --git a/remote-processor/RequestMessage.cpp b/remote-processor/RequestMessage.cpp
index 0c32438..7a78783 100644
--- a/remote-processor/RequestMessage.cpp
+++ b/remote-processor/RequestMessage.cpp
@@ -104,12 +104,15 @@ void CRequestMessage::fillDataToSend()
 }
 
 // Collect received data
-void CRequestMessage::collectReceivedData()
+bool CRequestMessage::collectReceivedData()
 {
     // Receive command
     string strCommand;
 
-    readString(strCommand);
+    if (!readString(strCommand)) {
+
+        return false;
+    }
 
     setCommand(strCommand);
 
@@ -118,10 +121,15 @@ void CRequestMessage::collectReceivedData()
 
         string strArgument;
 
-        readString(strArgument);
+        if (!readString(strArgument)) {
+
+            return false;
+        }
 
         addArgument(strArgument);
     }
+
+    return true;
 }
 
 // Size
diff --git a/remote-processor/RequestMessage.h b/remote-processor/RequestMessage.h
index 57c0be0..524bb16 100644
--- a/remote-processor/RequestMessage.h
+++ b/remote-processor/RequestMessage.h
@@ -64,7 +64,7 @@ private:
     // Fill data to send
     void fillDataToSend() override;
     // Collect received data
-    void collectReceivedData() override;
+    bool collectReceivedData() override;
     // Size
     /**
      * @return size of the request message in bytes
-- 
2.43.0


From e8c765a55f768bba709ce19b3ec0eb1987245ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:07 +0000
Subject: [PATCH 28/35] fix: keep the null characters of the strings received

The string was cut at the first one.
---
 remote-processor/Message.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/remote-processor/Message.cpp b/remote-processor/Message.cpp
index dffadcc..7551208 100644
--- a/remote-processor/Message.cpp
+++ b/remote-processor/Message.cpp
@@ -110,16 +110,13 @@ bool CMessage::readString(string &strData)
     }
 
     // Data
-    std::vector<char> string(size_t(uiSize) + 1);
+    std::vector<char> string(uiSize);
 
     // Content
     readData(string.data(), uiSize);
 
-    // NULL-terminate string
-    string.back() = '\0';
-
     // Output
-    strData = string.data();
+    strData.assign(string.begin(), string.end());
 
     return true;
 }
-- 
2.43.0


From d1d47a85cc613bc1d60701f8670a1be250239212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:46 +0000
Subject: [PATCH 29/35] fix: refuse form feeds around numbers

convertTo() refuses white space around a number, but let a form feed
through, which the stream extraction then skipped.
---
 utility/convert.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utility/convert.hpp b/utility/convert.hpp
index fcf8e03..8287594 100644
--- a/utility/convert.hpp
+++ b/utility/convert.hpp
@@ -122,7 +122,7 @@ static inline bool convertTo(const std::string &str, T &result)
      * with this type, thus that the result is undefined. */
     static_assert(ConvertionAllowed<T>::value, "convertTo does not support this conversion");
 
-    if (str.find_first_of(std::string("\r\n\t\v ")) != std::string::npos) {
+    if (str.find_first_of(std::string("\r\n\t\v\f ")) != std::string::npos) {
         return false;
     }
 
-- 
2.43.0


From 9b5d8885965f3d292be517372a57f1ebdc59c6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:39 +0000
Subject: [PATCH 30/35] fix: a framework which failed to start is not started

---
 bindings/c/ParameterFramework.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/bindings/c/ParameterFramework.cpp b/bindings/c/ParameterFramework.cpp
index 858994b..8011aef 100644
--- a/bindings/c/ParameterFramework.cpp
+++ b/bindings/c/ParameterFramework.cpp
@@ -142,6 +142,8 @@ struct PfwHandler_ : private utility::NonCopyable
 {
     void setLogger(const PfwLogger *logger);
     bool createCriteria(const PfwCriterion criteria[], size_t criterionNb);
+    /** Back to the not started state (the last status is kept). */
+    void reset();
 
     pfw::Criteria criteria;
     pfw::Pfw *pfw = nullptr;
@@ -174,6 +176,13 @@ void PfwHandler::setLogger(const PfwLogger *logger)
     pfw->setLogger(&mLogger);
 }
 
+void PfwHandler::reset()
+{
+    criteria.clear();
+    delete pfw;
+    pfw = nullptr;
+}
+
 bool PfwHandler::createCriteria(const PfwCriterion criteriaArray[], size_t criterionNb)
 {
     Status &status = lastStatus;
@@ -236,10 +245,16 @@ bool pfwStart(PfwHandler *handle, const char *configPath, const PfwCriterion cri
     handle->setLogger(logger);
 
     if (not handle->createCriteria(criteria, criterionNb)) {
+        handle->reset();
         return status.failure();
     }
 
-    return status.forward(handle->pfw->start(status.msg()));
+    if (not handle->pfw->start(status.msg())) {
+        handle->reset();
+        return status.failure();
+    }
+
+    return status.success();
 }
 
 const char *pfwGetLastError(const PfwHandler *handle)
-- 
2.43.0


From 9aedfc2e56400724ea8340148432796312b7b33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:39 +0000
Subject: [PATCH 31/35] fix: a mapping item looked up by its key is its value

---
 parameter/MappingContext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parameter/MappingContext.cpp b/parameter/MappingContext.cpp
index 3599296..2b9f14c 100644
--- a/parameter/MappingContext.cpp
+++ b/parameter/MappingContext.cpp
@@ -71,7 +71,7 @@ const string *CMappingContext::getItem(const string &strKey) const
     auto itemFound = find_if(begin(mItems), end(mItems), [&](const SItem &item) {
         return item.strKey != nullptr && strKey == *item.strKey;
     });
-    return (itemFound != end(mItems)) ? itemFound->strKey : nullptr;
+    return (itemFound != end(mItems)) ? itemFound->strItem : nullptr;
 }
 
 bool CMappingContext::iSet(size_t itemType) const
-- 
2.43.0


From 44ed3f37dbebd475ec62b8e0f82827b69b5add91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:39 +0000
Subject: [PATCH 32/35] fix: amend the rest of a mapping value after a key
 which is not set

---
 parameter/FormattedSubsystemObject.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parameter/FormattedSubsystemObject.cpp b/parameter/FormattedSubsystemObject.cpp
index dc7dded..d2df4b7 100644
--- a/parameter/FormattedSubsystemObject.cpp
+++ b/parameter/FormattedSubsystemObject.cpp
@@ -112,10 +112,16 @@ string CFormattedSubsystemObject::formatMappingValue(const string &strMappingVal
                 string strAmendValue = context.getItem(uiAmendType);
 
                 // Make the amendment
-                strFormattedValue =
-                    strFormattedValue.substr(0, uiPercentPos) + strAmendValue + strEndOfLineAmended;
+                return strFormattedValue.substr(0, uiPercentPos) + strAmendValue +
+                       strEndOfLineAmended;
             }
         }
+
+        // Nothing to amend here: only deal with the part of the string after the percent sign
+        string strEndOfLine = strFormattedValue.substr(uiPercentPos + 1);
+
+        strFormattedValue = strFormattedValue.substr(0, uiPercentPos + 1) +
+                            formatMappingValue(strEndOfLine, firstAmendKey, nbAmendKeys, context);
     }
     return strFormattedValue;
 }
-- 
2.43.0


From c9e901be6936877075eda9b129e8ed1c2b8d56b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:28 +0000
Subject: [PATCH 33/35] fix: report a wrong attribute of an imported domain
 instead of throwing

---
 parameter/ConfigurableDomain.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parameter/ConfigurableDomain.cpp b/parameter/ConfigurableDomain.cpp
index 71bb3e8..2f1c6ae 100644
--- a/parameter/ConfigurableDomain.cpp
+++ b/parameter/ConfigurableDomain.cpp
@@ -36,6 +36,7 @@
 #include "XmlDomainExportContext.h"
 #include "Utility.h"
 #include "AlwaysAssert.hpp"
+#include "PfError.hpp"
 #include <cassert>
 
 #define base CElement
@@ -206,8 +207,7 @@ void CConfigurableDomain::composeSettings(CXmlElement &xmlElement,
 
 // From IXmlSink
 bool CConfigurableDomain::fromXml(const CXmlElement &xmlElement,
-                                  CXmlSerializingContext &serializingContext)
-{
+                                  CXmlSerializingContext &serializingContext) try {
     // Context
     CXmlDomainImportContext &xmlDomainImportContext =
         static_cast<CXmlDomainImportContext &>(serializingContext);
@@ -236,6 +236,9 @@ bool CConfigurableDomain::fromXml(const CXmlElement &xmlElement,
     }
 
     return true;
+} catch (const PfError &e) {
+    serializingContext.appendLineToError(e.what());
+    return false;
 }
 
 // XML parsing
-- 
2.43.0


From af5cc24fa091eb0e2e372226fff567936e61853e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:28 +0000
Subject: [PATCH 34/35] fix: validate a single domain once imported

---
 parameter/ParameterMgr.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index 35ef122..241a159 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -2598,6 +2598,9 @@ bool CParameterMgr::importSingleDomainXml(const string &xmlSource, bool overwrit
         return false;
     }
 
+    // Validate the domain after XML import: areas without imported settings take the current ones
+    standaloneDomain->validate(_pMainParameterBlackboard);
+
     // ownership has been transfered to the ConfigurableDomains object
     standaloneDomain.release();
     return true;
-- 
2.43.0


From d7d2cdf0d4e41901040b6085068b08fbf5dc44c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:28 +0000
Subject: [PATCH 35/35] fix: setSequenceAwareness needs both its arguments

---
 parameter/ParameterMgr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index 241a159..268372e 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -195,7 +195,7 @@ const CParameterMgr::SRemoteCommandParserItem CParameterMgr::gastRemoteCommandPa
      "Delete all configurable domains"},
     {"renameDomain", &CParameterMgr::renameDomainCommandProcess, 2, "<domain> <new name>",
      "Rename configurable domain"},
-    {"setSequenceAwareness", &CParameterMgr::setSequenceAwarenessCommandProcess, 1,
+    {"setSequenceAwareness", &CParameterMgr::setSequenceAwarenessCommandProcess, 2,
      "<domain> true|false*", "Set configurable domain sequence awareness"},
     {"getSequenceAwareness", &CParameterMgr::getSequenceAwarenessCommandProcess, 1, "<domain>",
      "Get configurable domain sequence awareness"},
-- 
2.43.0


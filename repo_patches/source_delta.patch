From eb82857eef73c89dc03f168154334b7ba798f7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 01/59] fix: compare bitmask parameters by value in generated
 Python code

The generated write() compared the parameter stored in a parameterized field with
the instantiation argument using 'is not' for every non built-in type. Bitmask
objects are value objects (not singletons like enum items), so writing an object
whose parameter was an equal but distinct bitmask object failed with
'Wrong parameter ...'.
---
 compiler/extensions/python/freemarker/CompoundField.inc.ftl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/python/freemarker/CompoundField.inc.ftl b/compiler/extensions/python/freemarker/CompoundField.inc.ftl
index 1899346..e23c479 100644
--- a/compiler/extensions/python/freemarker/CompoundField.inc.ftl
+++ b/compiler/extensions/python/freemarker/CompoundField.inc.ftl
@@ -359,7 +359,7 @@ ${I}                                        "{0} != {1}!".format(len(self.<@fiel
 ${I}# check parameters
         <#list field.compound.instantiatedParameters as instantiatedParameter>
             <#local parameter=field.compound.parameters.list[instantiatedParameter?index]/>
-            <#local compareOperator><#if parameter.typeInfo.isBuiltin>!=<#else>is not</#if><#t></#local>
+            <#local compareOperator><#if parameter.typeInfo.isBuiltin || parameter.typeInfo.isBitmask>!=<#else>is not</#if><#t></#local>
 ${I}if self.<@field_member_name field/>.${parameter.propertyName} ${compareOperator} (${instantiatedParameter.expression}):
 ${I}    raise zserio.PythonRuntimeException("Wrong parameter ${parameter.name} for field ${compoundName}.${field.name}: "
 ${I}                                        "{0} != {1}!".format(self.<@field_member_name field/>.${parameter.propertyName}, ${instantiatedParameter.expression}))
-- 
2.43.0


From 90cdfd458faa1083236d27f46703212b7339aed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 02/59] fix: reject varsize values above 2^31-1 in C++
 readVarSize

The five encoded bytes hold 36 bits but the value was accumulated in uint32_t, so
the upper bits were lost before the range check and a corrupt varsize wrapped
around to a small valid one instead of being refused.
---
 .../cpp/runtime/src/zserio/BitStreamReader.cpp         | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp b/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp
index c4448df..3a08e68 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp
@@ -804,14 +804,16 @@ uint32_t BitStreamReader::readVarSize()
         return result;
     }
 
-    result = result << 8U | static_cast<uint8_t>(readBitsImpl(m_context, 8)); // byte 5
-    if (result > VARSIZE_MAX_VALUE)
+    // all 5 bytes together have 36 bits, don't lose the upper ones before the range check
+    const uint64_t fullResult =
+            static_cast<uint64_t>(result) << 8U | static_cast<uint8_t>(readBitsImpl(m_context, 8)); // byte 5
+    if (fullResult > VARSIZE_MAX_VALUE)
     {
         throw CppRuntimeException("BitStreamReader: Read value '")
-                << result << "' is out of range for varsize type!";
+                << fullResult << "' is out of range for varsize type!";
     }
 
-    return result;
+    return static_cast<uint32_t>(fullResult);
 }
 
 float BitStreamReader::readFloat16()
-- 
2.43.0


From 29875cc929a7a20da206f8877b2ca9064e30041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 03/59] fix: accept bitmask given as a plain number string in
 Python JsonReader

A JSON string consisting only of digits (e.g. "127") ran over the end of the string
and failed with IndexError; C++ and Java accept it.
---
 compiler/extensions/python/runtime/src/zserio/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/python/runtime/src/zserio/json.py b/compiler/extensions/python/runtime/src/zserio/json.py
index 78f94f4..f8aba71 100644
--- a/compiler/extensions/python/runtime/src/zserio/json.py
+++ b/compiler/extensions/python/runtime/src/zserio/json.py
@@ -1345,7 +1345,7 @@ class JsonReader:
         @staticmethod
         def _parse_bitmask_numeric_string_value(string_value: str):
             number_len = 1
-            while string_value[number_len] >= "0" and string_value[number_len] <= "9":
+            while number_len < len(string_value) and "0" <= string_value[number_len] <= "9":
                 number_len += 1
 
             return int(string_value[0:number_len])
-- 
2.43.0


From f6e1bb133bf8b0b30626362c5b695092fb46eb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 04/59] fix: accept bitmask given as a plain number string in
 Java JsonReader

A JSON string consisting only of digits (e.g. "127") ran over the end of the string
and failed with StringIndexOutOfBoundsException; C++ accepts it.
---
 .../java/runtime/src/zserio/runtime/json/JsonReader.java       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/json/JsonReader.java b/compiler/extensions/java/runtime/src/zserio/runtime/json/JsonReader.java
index 450748b..a7ef750 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/json/JsonReader.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/json/JsonReader.java
@@ -703,7 +703,8 @@ public final class JsonReader implements AutoCloseable
         private static BigInteger parseBitmaskNumericStringValue(String stringValue)
         {
             int numberLen = 1;
-            while (stringValue.charAt(numberLen) >= '0' && stringValue.charAt(numberLen) <= '9')
+            while (numberLen < stringValue.length() && stringValue.charAt(numberLen) >= '0' &&
+                    stringValue.charAt(numberLen) <= '9')
                 numberLen++;
             try
             {
-- 
2.43.0


From 1d1ffefc7313a0adb1f5815caca8934dd4e09f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 05/59] fix: do not lose a JSON value at the end of text after
 a chunk of white spaces

When white spaces ended exactly at the end of a 64 KB chunk, the tokenizer set its
token to END_OF_FILE; if the following last chunk was a single value token, the
stale END_OF_FILE was taken for the end of text and the value (or the error about
an unknown token) was silently lost. All runtimes shared the problem.
---
 compiler/extensions/cpp/runtime/src/zserio/JsonTokenizer.h     | 1 +
 .../java/runtime/src/zserio/runtime/json/JsonTokenizer.java    | 3 +++
 compiler/extensions/python/runtime/src/zserio/json.py          | 1 +
 3 files changed, 5 insertions(+)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/JsonTokenizer.h b/compiler/extensions/cpp/runtime/src/zserio/JsonTokenizer.h
index 1913700..e60978c 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/JsonTokenizer.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/JsonTokenizer.h
@@ -228,6 +228,7 @@ bool BasicJsonTokenizer<ALLOC>::decodeNext()
         m_decoderResult = m_decoder.decodeValue(StringView(m_content.data()).substr(m_pos));
         if (m_pos + m_decoderResult.numReadChars >= m_content.size())
         {
+            setToken(JsonToken::VALUE); // it's not EOF even if white spaces ended last chunk
             return false; // we are at the end of chunk => read more
         }
 
diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/json/JsonTokenizer.java b/compiler/extensions/java/runtime/src/zserio/runtime/json/JsonTokenizer.java
index 6fd3bb4..31c288d 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/json/JsonTokenizer.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/json/JsonTokenizer.java
@@ -157,7 +157,10 @@ class JsonTokenizer
         default:
             decoderResult = JsonDecoder.decodeValue(content, pos);
             if (pos + decoderResult.getNumReadChars() >= content.length())
+            {
+                setToken(JsonToken.VALUE, null); // it's not EOF even if white spaces ended last chunk
                 return false; // we are at the end of chunk => try to read more
+            }
 
             setTokenValue();
             break;
diff --git a/compiler/extensions/python/runtime/src/zserio/json.py b/compiler/extensions/python/runtime/src/zserio/json.py
index f8aba71..686c2e5 100644
--- a/compiler/extensions/python/runtime/src/zserio/json.py
+++ b/compiler/extensions/python/runtime/src/zserio/json.py
@@ -869,6 +869,7 @@ class JsonTokenizer:
         else:
             self._decoder_result = JsonDecoder.decode_value(self._content, self._pos)
             if self._pos + self._decoder_result.num_read_chars >= len(self._content):
+                self._set_token(JsonToken.VALUE, None)  # it's not EOF even if white spaces ended last chunk
                 return False  # we are at the end of chunk => try to read more
 
             self._set_token_value()
-- 
2.43.0


From 4f9db743900c32f22dbd10bf6e6e39179a8cf042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 06/59] fix: Python JSON decoder must not take other Unicode
 digits for numbers

---
 compiler/extensions/python/runtime/src/zserio/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/python/runtime/src/zserio/json.py b/compiler/extensions/python/runtime/src/zserio/json.py
index 686c2e5..b16a5a5 100644
--- a/compiler/extensions/python/runtime/src/zserio/json.py
+++ b/compiler/extensions/python/runtime/src/zserio/json.py
@@ -742,7 +742,7 @@ class JsonDecoder:
                     end_of_number_pos += 1
                     continue
 
-            if next_char.isdigit():
+            if "0" <= next_char <= "9":
                 end_of_number_pos += 1
                 continue
 
-- 
2.43.0


From 0765c52e134dcf77215c12009b090d9481dd885a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:51 +0000
Subject: [PATCH 07/59] fix: Python expressions must not chain comparisons

Nested comparisons (a < b == c) were emitted unparenthesized, which Python
evaluates as chained comparison, and negation used as operand of a comparison
(a == !b) was emitted as a syntax error.
---
 .../PythonExpressionFormattingPolicy.java     | 45 ++++++++++++++++---
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
index c64b2fd..3224852 100644
--- a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
+++ b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
@@ -1,5 +1,6 @@
 package zserio.extension.python;
 
+import zserio.antlr.ZserioParser;
 import zserio.ast.BitmaskType;
 import zserio.ast.BitmaskValue;
 import zserio.ast.Constant;
@@ -253,37 +254,37 @@ class PythonExpressionFormattingPolicy implements ExpressionFormattingPolicy
     @Override
     public BinaryExpressionFormatting getEq(Expression expr)
     {
-        return new BinaryExpressionFormatting(" == ");
+        return formatComparison(expr, " == ");
     }
 
     @Override
     public BinaryExpressionFormatting getNe(Expression expr)
     {
-        return new BinaryExpressionFormatting(" != ");
+        return formatComparison(expr, " != ");
     }
 
     @Override
     public BinaryExpressionFormatting getLt(Expression expr)
     {
-        return new BinaryExpressionFormatting(" < ");
+        return formatComparison(expr, " < ");
     }
 
     @Override
     public BinaryExpressionFormatting getLe(Expression expr)
     {
-        return new BinaryExpressionFormatting(" <= ");
+        return formatComparison(expr, " <= ");
     }
 
     @Override
     public BinaryExpressionFormatting getGe(Expression expr)
     {
-        return new BinaryExpressionFormatting(" >= ");
+        return formatComparison(expr, " >= ");
     }
 
     @Override
     public BinaryExpressionFormatting getGt(Expression expr)
     {
-        return new BinaryExpressionFormatting(" > ");
+        return formatComparison(expr, " > ");
     }
 
     @Override
@@ -363,6 +364,38 @@ class PythonExpressionFormattingPolicy implements ExpressionFormattingPolicy
         return new TernaryExpressionFormattingPython(expr, "(", ") if (", ") else (", ")");
     }
 
+    /**
+     * Python chains comparisons (a < b == c means a < b and b == c) and doesn't allow the not operator in
+     * the operand of comparison, thus such operands must be parenthesized.
+     */
+    private BinaryExpressionFormatting formatComparison(Expression expr, String operator)
+    {
+        final boolean op1Parentheses = isComparisonOrNegation(expr.op1());
+        final boolean op2Parentheses = isComparisonOrNegation(expr.op2());
+
+        return new BinaryExpressionFormatting(op1Parentheses ? "(" : "",
+                (op1Parentheses ? ")" : "") + operator + (op2Parentheses ? "(" : ""),
+                op2Parentheses ? ")" : "");
+    }
+
+    private static boolean isComparisonOrNegation(Expression expr)
+    {
+        switch (expr.getType())
+        {
+        case ZserioParser.EQ:
+        case ZserioParser.NE:
+        case ZserioParser.LT:
+        case ZserioParser.LE:
+        case ZserioParser.GT:
+        case ZserioParser.GE:
+        case ZserioParser.BANG:
+            return true;
+
+        default:
+            return false;
+        }
+    }
+
     protected String getAccessPrefix()
     {
         return accessPrefix;
-- 
2.43.0


From 2532b655427336b1604d7334dd90fed3e268100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:30 +0000
Subject: [PATCH 08/59] fix: bounds of negated and shifted expressions

Bounds of a negated expression were swapped and a shift by an expression with
large or negative bounds crashed the compiler with an internal error.
---
 .../zserio/ast/ExpressionIntegerValue.java    | 43 +++++++++++++++----
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/compiler/core/src/zserio/ast/ExpressionIntegerValue.java b/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
index 94adad7..33378ba 100644
--- a/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
+++ b/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
@@ -138,7 +138,7 @@ final class ExpressionIntegerValue
             return new ExpressionIntegerValue(value.negate());
 
         if (lowerBound != null && upperBound != null)
-            return new ExpressionIntegerValue(lowerBound.negate(), upperBound.negate(), needsBigInteger);
+            return new ExpressionIntegerValue(upperBound.negate(), lowerBound.negate(), needsBigInteger);
 
         return new ExpressionIntegerValue(needsBigInteger);
     }
@@ -308,13 +308,22 @@ final class ExpressionIntegerValue
         if (value != null && operand.value != null)
             return new ExpressionIntegerValue(value.shiftLeft(operand.value.intValue()), needsBigInteger);
 
-        if (lowerBound != null && upperBound != null && operand.lowerBound != null &&
-                operand.upperBound != null)
+        if (lowerBound != null && upperBound != null && operand.isInShiftRange())
         {
-            return new ExpressionIntegerValue(lowerBound.shiftLeft(operand.lowerBound.intValue()),
-                    upperBound.shiftLeft(operand.upperBound.intValue()), needsBigInteger);
+            final int operandLowerBound = operand.lowerBound.intValue();
+            final int operandUpperBound = operand.upperBound.intValue();
+            final MinMaxValue minMaxValue = new MinMaxValue();
+            minMaxValue.add(lowerBound.shiftLeft(operandLowerBound));
+            minMaxValue.add(lowerBound.shiftLeft(operandUpperBound));
+            minMaxValue.add(upperBound.shiftLeft(operandLowerBound));
+            minMaxValue.add(upperBound.shiftLeft(operandUpperBound));
+
+            return new ExpressionIntegerValue(minMaxValue.getMin(), minMaxValue.getMax(), needsBigInteger);
         }
 
+        if (lowerBound != null && lowerBound.signum() >= 0)
+            return new ExpressionIntegerValue(BigInteger.ZERO, (BigInteger)null, needsBigInteger);
+
         return new ExpressionIntegerValue(needsBigInteger);
     }
 
@@ -330,13 +339,22 @@ final class ExpressionIntegerValue
         if (value != null && operand.value != null)
             return new ExpressionIntegerValue(value.shiftRight(operand.value.intValue()), needsBigInteger);
 
-        if (lowerBound != null && upperBound != null && operand.lowerBound != null &&
-                operand.upperBound != null)
+        if (lowerBound != null && upperBound != null && operand.isInShiftRange())
         {
-            return new ExpressionIntegerValue(lowerBound.shiftRight(operand.lowerBound.intValue()),
-                    upperBound.shiftRight(operand.upperBound.intValue()), needsBigInteger);
+            final int operandLowerBound = operand.lowerBound.intValue();
+            final int operandUpperBound = operand.upperBound.intValue();
+            final MinMaxValue minMaxValue = new MinMaxValue();
+            minMaxValue.add(lowerBound.shiftRight(operandLowerBound));
+            minMaxValue.add(lowerBound.shiftRight(operandUpperBound));
+            minMaxValue.add(upperBound.shiftRight(operandLowerBound));
+            minMaxValue.add(upperBound.shiftRight(operandUpperBound));
+
+            return new ExpressionIntegerValue(minMaxValue.getMin(), minMaxValue.getMax(), needsBigInteger);
         }
 
+        if (lowerBound != null && lowerBound.signum() >= 0)
+            return new ExpressionIntegerValue(BigInteger.ZERO, (BigInteger)null, needsBigInteger);
+
         return new ExpressionIntegerValue(needsBigInteger);
     }
 
@@ -490,6 +508,13 @@ final class ExpressionIntegerValue
         this.needsBigInteger = needsBigInteger;
     }
 
+    /** Checks if all possible values are usable as shift count of native integer types. */
+    private boolean isInShiftRange()
+    {
+        return lowerBound != null && upperBound != null && lowerBound.signum() >= 0 &&
+                upperBound.compareTo(BigInteger.valueOf(Long.SIZE)) <= 0;
+    }
+
     // TODO This is redundant with runtime library but we don't have available runtime library in Zserio core.
     private BigInteger getNumBits(BigInteger value)
     {
-- 
2.43.0


From 16fa84c558a9cb9e767835a43496496c8e79db2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:30 +0000
Subject: [PATCH 09/59] fix: numbits(0) evaluated by the compiler must be 0

---
 compiler/core/src/zserio/ast/ExpressionIntegerValue.java | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/compiler/core/src/zserio/ast/ExpressionIntegerValue.java b/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
index 33378ba..3c3c9cd 100644
--- a/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
+++ b/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
@@ -518,7 +518,9 @@ final class ExpressionIntegerValue
     // TODO This is redundant with runtime library but we don't have available runtime library in Zserio core.
     private BigInteger getNumBits(BigInteger value)
     {
-        if (value.doubleValue() < 2.0)
+        if (value.signum() <= 0)
+            return BigInteger.ZERO;
+        if (value.equals(BigInteger.ONE))
             return BigInteger.ONE;
 
         final BigInteger calcValue = value.subtract(BigInteger.ONE);
-- 
2.43.0


From 7694028db588a5092bf14ba8981e88296950d126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:47 +0000
Subject: [PATCH 10/59] fix: Python division of negative integers must truncate
 as in other languages

---
 .../python/runtime/src/zserio/builtin.py      | 30 +++++++++++++++++++
 .../PythonExpressionFormattingPolicy.java     | 21 ++++++++++---
 2 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/compiler/extensions/python/runtime/src/zserio/builtin.py b/compiler/extensions/python/runtime/src/zserio/builtin.py
index 96fd5f7..1d4641f 100644
--- a/compiler/extensions/python/runtime/src/zserio/builtin.py
+++ b/compiler/extensions/python/runtime/src/zserio/builtin.py
@@ -46,3 +46,33 @@ def lengthof_string(string: str) -> int:
     """
 
     return len(string.encode("utf-8"))
+
+
+def divide(dividend: int, divisor: int) -> int:
+    """
+    Divides integers with truncation towards zero.
+
+    This method implements zserio integer operator '/' for operands which can be negative.
+
+    :param dividend: Value to divide.
+    :param divisor: Value to divide by.
+    :returns: Quotient rounded towards zero.
+    """
+
+    quotient = abs(dividend) // abs(divisor)
+
+    return quotient if (dividend < 0) == (divisor < 0) else -quotient
+
+
+def remainder(dividend: int, divisor: int) -> int:
+    """
+    Gets remainder of integer division with truncation towards zero.
+
+    This method implements zserio integer operator '%' for operands which can be negative.
+
+    :param dividend: Value to divide.
+    :param divisor: Value to divide by.
+    :returns: Remainder with the sign of the dividend.
+    """
+
+    return dividend - divisor * divide(dividend, divisor)
diff --git a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
index 3224852..ba5b0bd 100644
--- a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
+++ b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
@@ -321,16 +321,24 @@ class PythonExpressionFormattingPolicy implements ExpressionFormattingPolicy
     public BinaryExpressionFormatting getDivide(Expression expr)
     {
         // simulate behavior from other languages (#718)
-        if (expr.getExprType() == Expression.ExpressionType.INTEGER)
-            return new BinaryExpressionFormatting(" // ");
-        else
+        if (expr.getExprType() != Expression.ExpressionType.INTEGER)
             return new BinaryExpressionFormatting(" / ");
+        if (isNonNegative(expr.op1()) && isNonNegative(expr.op2()))
+            return new BinaryExpressionFormatting(" // ");
+
+        importCollector.importPackage("zserio");
+        return new BinaryExpressionFormatting("zserio.builtin.divide(", ", ", ")");
     }
 
     @Override
     public BinaryExpressionFormatting getModulo(Expression expr)
     {
-        return new BinaryExpressionFormatting(" % ");
+        if (expr.getExprType() != Expression.ExpressionType.INTEGER ||
+                (isNonNegative(expr.op1()) && isNonNegative(expr.op2())))
+            return new BinaryExpressionFormatting(" % ");
+
+        importCollector.importPackage("zserio");
+        return new BinaryExpressionFormatting("zserio.builtin.remainder(", ", ", ")");
     }
 
     @Override
@@ -378,6 +386,11 @@ class PythonExpressionFormattingPolicy implements ExpressionFormattingPolicy
                 op2Parentheses ? ")" : "");
     }
 
+    private static boolean isNonNegative(Expression expr)
+    {
+        return expr.getIntegerLowerBound() != null && expr.getIntegerLowerBound().signum() >= 0;
+    }
+
     private static boolean isComparisonOrNegation(Expression expr)
     {
         switch (expr.getType())
-- 
2.43.0


From 89d01bce58fd425bfb45bdc9d25cc3cafe3aff90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:09 +0000
Subject: [PATCH 11/59] fix: valueof of conditional expression in Python

---
 .../extension/python/PythonExpressionFormattingPolicy.java     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
index ba5b0bd..cefb3c8 100644
--- a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
+++ b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
@@ -193,6 +193,9 @@ class PythonExpressionFormattingPolicy implements ExpressionFormattingPolicy
     {
         if (expr.op1().getExprType() == Expression.ExpressionType.ENUM)
         {
+            if (expr.op1().getType() == ZserioParser.QUESTIONMARK)
+                return new UnaryExpressionFormatting("(", ").value");
+
             return new UnaryExpressionFormatting("", ".value");
         }
         else if (expr.op1().getExprType() == Expression.ExpressionType.BITMASK)
-- 
2.43.0


From 9320aeed5647c56a6f66327cf1a46f3557cf8df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:39 +0000
Subject: [PATCH 12/59] fix: equality of Java unions and choices with bytes
 fields

---
 compiler/extensions/java/freemarker/Choice.java.ftl | 5 +----
 compiler/extensions/java/freemarker/Union.java.ftl  | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/compiler/extensions/java/freemarker/Choice.java.ftl b/compiler/extensions/java/freemarker/Choice.java.ftl
index 0529c9d..779ac48 100644
--- a/compiler/extensions/java/freemarker/Choice.java.ftl
+++ b/compiler/extensions/java/freemarker/Choice.java.ftl
@@ -368,10 +368,7 @@ ${I}break;
                     <@compound_compare_parameter parameter/><#if parameter?has_next || fieldList?has_content> &&<#else>;</#if>
     </#list>
     <#if fieldList?has_content>
-                    (
-                        (objectChoice == null && that.objectChoice == null) ||
-                        (objectChoice != null && objectChoice.equals(that.objectChoice))
-                    );
+                    java.util.Objects.deepEquals(objectChoice, that.objectChoice);
     </#if>
         }
 
diff --git a/compiler/extensions/java/freemarker/Union.java.ftl b/compiler/extensions/java/freemarker/Union.java.ftl
index f22e86f..b57638a 100644
--- a/compiler/extensions/java/freemarker/Union.java.ftl
+++ b/compiler/extensions/java/freemarker/Union.java.ftl
@@ -280,10 +280,7 @@ public class ${name} implements <#rt>
     </#list>
     <#if fieldList?has_content>
                     choiceTag == that.choiceTag &&
-                    (
-                        (objectChoice == null && that.objectChoice == null) ||
-                        (objectChoice != null && objectChoice.equals(that.objectChoice))
-                    );
+                    java.util.Objects.deepEquals(objectChoice, that.objectChoice);
     </#if>
         }
 
-- 
2.43.0


From 72623ddf43308a28b3cd4e29ea3132ea003c3bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:20 +0000
Subject: [PATCH 13/59] fix: Java JSON decoder must accept only ASCII digits

---
 .../src/zserio/runtime/json/JsonDecoder.java   | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/json/JsonDecoder.java b/compiler/extensions/java/runtime/src/zserio/runtime/json/JsonDecoder.java
index 1286201..99380c2 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/json/JsonDecoder.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/json/JsonDecoder.java
@@ -205,14 +205,18 @@ class JsonDecoder
 
     private static String decodeUnicodeEscape(String content)
     {
-        try
+        int codePoint = 0;
+        for (int i = 0; i < content.length(); ++i)
         {
-            return new String(Character.toChars(Integer.parseInt(content, 16)));
-        }
-        catch (NumberFormatException excpt)
-        {
-            return null;
+            final char hexChar = content.charAt(i);
+            // accept only ASCII digits, no sign
+            final int digit = (hexChar < 0x80) ? Character.digit(hexChar, 16) : -1;
+            if (digit < 0)
+                return null;
+            codePoint = codePoint * 16 + digit;
         }
+
+        return new String(Character.toChars(codePoint));
     }
 
     private static Result decodeNumber(String content, int pos)
@@ -285,7 +289,7 @@ class JsonDecoder
                 }
             }
 
-            if (Character.isDigit(nextChar))
+            if (nextChar >= '0' && nextChar <= '9')
             {
                 endOfNumberPos++;
                 continue;
-- 
2.43.0


From a36194c51991c73b737ddd4af96884a7aaa1e274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 14/59] fix: repeated unary signs in Java and C++ expressions

---
 .../common/DefaultExpressionFormattingPolicy.java    | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/compiler/core/src/zserio/extension/common/DefaultExpressionFormattingPolicy.java b/compiler/core/src/zserio/extension/common/DefaultExpressionFormattingPolicy.java
index 8fafadb..0d0f26d 100644
--- a/compiler/core/src/zserio/extension/common/DefaultExpressionFormattingPolicy.java
+++ b/compiler/core/src/zserio/extension/common/DefaultExpressionFormattingPolicy.java
@@ -36,13 +36,13 @@ public abstract class DefaultExpressionFormattingPolicy implements ExpressionFor
     @Override
     public UnaryExpressionFormatting getUnaryPlus(Expression expr)
     {
-        return new UnaryExpressionFormatting("+");
+        return new UnaryExpressionFormatting(isRepeatedSign(expr) ? "+ " : "+");
     }
 
     @Override
     public UnaryExpressionFormatting getUnaryMinus(Expression expr)
     {
-        return new UnaryExpressionFormatting("-");
+        return new UnaryExpressionFormatting(isRepeatedSign(expr) ? "- " : "-");
     }
 
     @Override
@@ -182,4 +182,12 @@ public abstract class DefaultExpressionFormattingPolicy implements ExpressionFor
     {
         return new TernaryExpressionFormatting(expr, "(", ") ? ", " : ", "");
     }
+
+    private static boolean isRepeatedSign(Expression expr)
+    {
+        // repeated unary signs must be separated, they would be the increment or decrement operator otherwise
+        final Expression operand = expr.op1();
+
+        return operand.getType() == expr.getType() && operand.op2() == null;
+    }
 }
-- 
2.43.0


From ff612daa3f17e808c2471e3cfeed1377c5c691f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:31 +0000
Subject: [PATCH 15/59] fix: valueof and lengthof of conditional expressions in
 Java

---
 .../java/JavaDefaultExpressionFormattingPolicy.java  | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java b/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
index 42eecaa..aebdcd9 100644
--- a/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
+++ b/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
@@ -236,14 +236,14 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
         }
         else
         {
-            return new UnaryExpressionFormatting("", ".length");
+            return formatPostfix(expr, ".length");
         }
     }
 
     @Override
     public UnaryExpressionFormatting getValueOf(Expression expr)
     {
-        return new UnaryExpressionFormatting("", ".getValue()");
+        return formatPostfix(expr, ".getValue()");
     }
 
     @Override
@@ -593,6 +593,14 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
         result.append(nativeSymbol.getFullName());
     }
 
+    private static UnaryExpressionFormatting formatPostfix(Expression expr, String suffix)
+    {
+        if (expr.op1().op3() != null) // conditional expression must be in parentheses
+            return new UnaryExpressionFormatting("(", ")" + suffix);
+
+        return new UnaryExpressionFormatting("", suffix);
+    }
+
     private String getIntegerLiteralSuffix(BigInteger literalValue, boolean isNegative)
     {
         final long maxAbsIntValue = (isNegative) ? -(long)Integer.MIN_VALUE : (long)Integer.MAX_VALUE;
-- 
2.43.0


From 05873bd0ce5c01533c503c0689183292d8985300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:06 +0000
Subject: [PATCH 16/59] fix: Java bit stream reader must not read unavailable
 bits of the last byte when aligned

---
 .../runtime/io/ByteArrayBitStreamReader.java  | 60 ++++++++++++++-----
 1 file changed, 45 insertions(+), 15 deletions(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
index 3574bff..5ac882f 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
@@ -117,7 +117,7 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
         byte result;
         if (bitOffset == 0)
         {
-            result = nextByte();
+            result = nextFullByte();
         }
         else
         {
@@ -138,8 +138,8 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
         short result;
         if (bitOffset == 0)
         {
-            final byte b0 = nextByte();
-            final byte b1 = nextByte();
+            final byte b0 = nextFullByte();
+            final byte b1 = nextFullByte();
             result = makeShort(b0, b1);
         }
         else
@@ -161,10 +161,10 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
         int result;
         if (bitOffset == 0)
         {
-            final byte b0 = nextByte();
-            final byte b1 = nextByte();
-            final byte b2 = nextByte();
-            final byte b3 = nextByte();
+            final byte b0 = nextFullByte();
+            final byte b1 = nextFullByte();
+            final byte b2 = nextFullByte();
+            final byte b3 = nextFullByte();
             result = makeInt(b0, b1, b2, b3);
         }
         else
@@ -186,14 +186,14 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
         long result;
         if (bitOffset == 0)
         {
-            final byte b0 = nextByte();
-            final byte b1 = nextByte();
-            final byte b2 = nextByte();
-            final byte b3 = nextByte();
-            final byte b4 = nextByte();
-            final byte b5 = nextByte();
-            final byte b6 = nextByte();
-            final byte b7 = nextByte();
+            final byte b0 = nextFullByte();
+            final byte b1 = nextFullByte();
+            final byte b2 = nextFullByte();
+            final byte b3 = nextFullByte();
+            final byte b4 = nextFullByte();
+            final byte b5 = nextFullByte();
+            final byte b6 = nextFullByte();
+            final byte b7 = nextFullByte();
             result = makeLong(b0, b1, b2, b3, b4, b5, b6, b7);
         }
         else
@@ -756,6 +756,8 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
                     " bytes on offset position " + bytePosition +
                     ". It's beyond end of the stream with length " + buffer.length + ".");
 
+        checkLastByte(length);
+
         System.arraycopy(buffer, bytePosition, dest, offset, length);
         bytePosition += length;
         return length;
@@ -782,6 +784,34 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
         return buffer[bytePosition++];
     }
 
+    /**
+     * Returns the next byte and checks that all its bits are available.
+     *
+     * @return Read next byte.
+     *
+     * @throws IOException If the reading failed.
+     */
+    private byte nextFullByte() throws IOException
+    {
+        checkLastByte(1);
+
+        return nextByte();
+    }
+
+    /**
+     * Checks that reading of the given number of bytes does not read unavailable bits of the last byte.
+     *
+     * @param length Number of bytes to read.
+     *
+     * @throws IOException If the last byte would be read and it is not fully available.
+     */
+    private void checkLastByte(final int length) throws IOException
+    {
+        if (lastByteBits < 8 && length > 0 && bytePosition + length == buffer.length)
+            throw new IOException("ByteArrayBitStreamReader: Unable to read bit on offset position " +
+                    lastByteBits + " in the last byte.");
+    }
+
     /**
      * Returns the next unsigned byte without resetting the bit offset.
      *
-- 
2.43.0


From 166aa78c3dfa7641fc594152c3b5f6434c70a6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 17/59] fix: large binary and octal literals in Java
 expressions

---
 .../java/JavaDefaultExpressionFormattingPolicy.java   | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java b/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
index aebdcd9..5c4b203 100644
--- a/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
+++ b/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
@@ -72,7 +72,8 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
             {
                 // binary literals are in Java only from version 1.7 => use hexadecimal instead of it
                 final BigInteger binaryInBigInteger = new BigInteger(binaryLiteral, 2);
-                binaryLiteral = JAVA_HEXADECIMAL_LITERAL_PREFIX + binaryInBigInteger.toString(16);
+                binaryLiteral = JAVA_HEXADECIMAL_LITERAL_PREFIX + binaryInBigInteger.toString(16) +
+                        getIntegerLiteralSuffix(binaryInBigInteger, isNegative);
             }
         }
 
@@ -100,14 +101,18 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
     @Override
     public String getOctalLiteral(Expression expr, boolean isNegative)
     {
-        // octal literals in Java are the same (with prefix '0')
+        // octal literals in Java are the same (with prefix '0') but append "L" for long values
         if (expr.needsBigInteger())
         {
             // special handling for uint64 type
             return getBigIntegerLiteral(expr.getText(), 8);
         }
 
-        return JAVA_OCTAL_LITERAL_PREFIX + expr.getText();
+        final String octalLiteral = expr.getText();
+        final BigInteger octalInBigInteger = new BigInteger(octalLiteral, 8);
+
+        return JAVA_OCTAL_LITERAL_PREFIX + octalLiteral +
+                getIntegerLiteralSuffix(octalInBigInteger, isNegative);
     }
 
     @Override
-- 
2.43.0


From 3bec5492a9e6f0a5a96923c3daaae333ea85d951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 18/59] fix: modulo of BigInteger expressions by negative
 operands in Java

---
 .../extension/java/JavaDefaultExpressionFormattingPolicy.java   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java b/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
index 5c4b203..a751734 100644
--- a/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
+++ b/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
@@ -412,7 +412,7 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
         if (!expr.needsBigInteger())
             return super.getModulo(expr);
 
-        return new BinaryExpressionFormatting("", ".mod(", ")");
+        return new BinaryExpressionFormatting("", ".remainder(", ")");
     }
 
     @Override
-- 
2.43.0


From 865f138b2be78a44e8094ab4172b9e9eef7e9dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 19/59] fix: minimum integer literals as operands in C++
 expressions

---
 .../cpp/CppExpressionFormattingPolicy.java    | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/compiler/extensions/cpp/src/zserio/extension/cpp/CppExpressionFormattingPolicy.java b/compiler/extensions/cpp/src/zserio/extension/cpp/CppExpressionFormattingPolicy.java
index 3daca7d..9b26290 100644
--- a/compiler/extensions/cpp/src/zserio/extension/cpp/CppExpressionFormattingPolicy.java
+++ b/compiler/extensions/cpp/src/zserio/extension/cpp/CppExpressionFormattingPolicy.java
@@ -5,6 +5,7 @@ import java.util.Arrays;
 import java.util.Collections;
 import java.util.List;
 
+import zserio.antlr.ZserioParser;
 import zserio.ast.AstNode;
 import zserio.ast.BitmaskType;
 import zserio.ast.BitmaskValue;
@@ -170,6 +171,16 @@ public class CppExpressionFormattingPolicy extends DefaultExpressionFormattingPo
         return result.toString();
     }
 
+    @Override
+    public UnaryExpressionFormatting getUnaryMinus(Expression expr)
+    {
+        // minimum integer literals are emitted as subtraction which must be enclosed in parentheses
+        if (isMinIntLiteral(expr.op1()))
+            return new UnaryExpressionFormatting("(-", ")");
+
+        return super.getUnaryMinus(expr);
+    }
+
     @Override
     public UnaryExpressionFormatting getFunctionCall(Expression expr)
     {
@@ -428,6 +439,21 @@ public class CppExpressionFormattingPolicy extends DefaultExpressionFormattingPo
         return workaround;
     }
 
+    private static boolean isMinIntLiteral(Expression expr)
+    {
+        switch (expr.getType())
+        {
+        case ZserioParser.DECIMAL_LITERAL:
+        case ZserioParser.BINARY_LITERAL:
+        case ZserioParser.HEXADECIMAL_LITERAL:
+        case ZserioParser.OCTAL_LITERAL:
+            return ABS_INT32_MIN.equals(expr.getIntegerValue()) || ABS_INT64_MIN.equals(expr.getIntegerValue());
+
+        default:
+            return false;
+        }
+    }
+
     private static class CppFormattingConfig extends DefaultFormattingConfig
     {
         @Override
-- 
2.43.0


From ea80278cc403c8bf4962fad06765196accc4886f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 20/59] fix: C++ JSON export of floating point numbers must not
 lose precision

---
 .../cpp/runtime/src/zserio/JsonEncoder.cpp    | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/JsonEncoder.cpp b/compiler/extensions/cpp/runtime/src/zserio/JsonEncoder.cpp
index 61580e3..298fa0c 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/JsonEncoder.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/JsonEncoder.cpp
@@ -1,6 +1,9 @@
 #include <array>
 #include <cmath>
+#include <cstdio>
+#include <cstdlib>
 #include <iomanip>
+#include <limits>
 #include <string>
 
 #include "zserio/JsonEncoder.h"
@@ -43,7 +46,28 @@ void JsonEncoder::encodeFloatingPoint(std::ostream& stream, double value)
         }
         else
         {
-            stream << std::setprecision(15) << value << std::defaultfloat;
+            // use the shortest precision which allows to get the same value back
+            int precision = 15;
+            std::array<char, 32> buffer = {};
+            while (precision < std::numeric_limits<double>::max_digits10)
+            {
+                (void)std::snprintf(buffer.data(), buffer.size(), "%.*g", precision, value);
+                if (std::strtod(buffer.data(), nullptr) == value)
+                {
+                    break;
+                }
+                ++precision;
+            }
+
+            if (fractPart == 0.0 && precision == std::numeric_limits<double>::max_digits10)
+            {
+                // default format could look like an integral value
+                stream << std::scientific << std::setprecision(precision - 1) << value << std::defaultfloat;
+            }
+            else
+            {
+                stream << std::setprecision(precision) << value << std::defaultfloat;
+            }
         }
     }
 }
-- 
2.43.0


From 16eadc17a390503f37c059f5869e672e295054b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 21/59] fix: too large numbers must become infinity in float16,
 NaN must stay NaN

---
 compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp | 9 +++++++--
 .../java/runtime/src/zserio/runtime/FloatUtil.java       | 5 +++--
 compiler/extensions/python/runtime/src/zserio/float.py   | 7 +++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp b/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp
index 270f903..7cfa203 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp
@@ -108,16 +108,21 @@ uint16_t convertFloatToUInt16(float float32)
     {
         // infinity or NaN
         exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+        if (significand32 != 0 && significand16 == 0)
+        {
+            significand16 = 1; // NaN must not become infinity
+        }
     }
     else
     {
         // normal number
         const int16_t signedExponent16 = static_cast<int16_t>(static_cast<int32_t>(exponent32) -
                 static_cast<int32_t>(FLOAT32_EXPONENT_BIAS) + static_cast<int32_t>(FLOAT16_EXPONENT_BIAS));
-        if (signedExponent16 > FLOAT16_EXPONENT_INFINITY_NAN)
+        if (signedExponent16 >= FLOAT16_EXPONENT_INFINITY_NAN)
         {
-            // exponent overflow, set infinity or NaN
+            // exponent overflow, set infinity
             exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+            significand16 = 0;
         }
         else if (signedExponent16 <= 0)
         {
diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java b/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java
index bc295e6..e3ef2bc 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java
@@ -115,10 +115,11 @@ public final class FloatUtil
         {
             // normal number
             final short signedExponent16 = (short)(exponent32 - FLOAT32_EXPONENT_BIAS + FLOAT16_EXPONENT_BIAS);
-            if (signedExponent16 > FLOAT16_EXPONENT_INFINITY_NAN)
+            if (signedExponent16 >= FLOAT16_EXPONENT_INFINITY_NAN)
             {
-                // exponent overflow, set infinity or NaN
+                // exponent overflow, set infinity
                 exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+                significand16 = 0;
             }
             else if (signedExponent16 <= 0)
             {
diff --git a/compiler/extensions/python/runtime/src/zserio/float.py b/compiler/extensions/python/runtime/src/zserio/float.py
index b245b17..fff058e 100644
--- a/compiler/extensions/python/runtime/src/zserio/float.py
+++ b/compiler/extensions/python/runtime/src/zserio/float.py
@@ -86,12 +86,15 @@ def float_to_uint16(float64: float) -> int:
     elif exponent32 == FLOAT32_EXPONENT_INFINITY_NAN:
         # infinity or NaN
         exponent16 = FLOAT16_EXPONENT_INFINITY_NAN
+        if significand32 != 0 and significand16 == 0:
+            significand16 = 1  # NaN must not become infinity
     else:
         # normal number
         signed_exponent16 = exponent32 - FLOAT32_EXPONENT_BIAS + FLOAT16_EXPONENT_BIAS
-        if signed_exponent16 > FLOAT16_EXPONENT_INFINITY_NAN:
-            # exponent overflow, set infinity or NaN
+        if signed_exponent16 >= FLOAT16_EXPONENT_INFINITY_NAN:
+            # exponent overflow, set infinity
             exponent16 = FLOAT16_EXPONENT_INFINITY_NAN
+            significand16 = 0
         elif signed_exponent16 <= 0:
             # exponent underflow
             if signed_exponent16 <= -FLOAT16_SIGNIFICAND_NUM_BITS:
-- 
2.43.0


From 4cce139b047077ce31037c256ff085c612ed2b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 22/59] fix: regular expression walk filter looks at paths of
 array elements themselves

An array of compounds was skipped when the pattern matches the path of an element
but no path inside of it (e.g. 'compound.arrayField\[0\]$').
---
 compiler/extensions/cpp/runtime/src/zserio/Walker.h             | 2 +-
 .../java/runtime/src/zserio/runtime/walker/RegexWalkFilter.java | 2 +-
 compiler/extensions/python/runtime/src/zserio/walker.py         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/Walker.h b/compiler/extensions/cpp/runtime/src/zserio/Walker.h
index 6493ec4..109be5d 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/Walker.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/Walker.h
@@ -779,7 +779,7 @@ bool BasicRegexWalkFilter<ALLOC>::beforeArray(
         m_currentPath.back() =
                 toString(fieldInfo.schemaName, m_allocator) + "[" + toString(i, m_allocator) + "]";
 
-        if (matchSubtree(array->at(i), fieldInfo))
+        if (std::regex_match(getCurrentPath(), m_pathRegex) || matchSubtree(array->at(i), fieldInfo))
         {
             return true;
         }
diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/walker/RegexWalkFilter.java b/compiler/extensions/java/runtime/src/zserio/runtime/walker/RegexWalkFilter.java
index c26f4f7..0e72679 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/walker/RegexWalkFilter.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/walker/RegexWalkFilter.java
@@ -42,7 +42,7 @@ public final class RegexWalkFilter implements WalkFilter
         {
             currentPath.set(currentPath.size() - 1, fieldInfo.getSchemaName() + "[" + i + "]");
             final Object element = Array.get(array, i);
-            if (matchSubtree(element, fieldInfo))
+            if (Pattern.matches(pathRegex, getCurrentPath()) || matchSubtree(element, fieldInfo))
                 return true;
         }
         currentPath.set(currentPath.size() - 1, fieldInfo.getSchemaName());
diff --git a/compiler/extensions/python/runtime/src/zserio/walker.py b/compiler/extensions/python/runtime/src/zserio/walker.py
index 5feb0de..9926440 100644
--- a/compiler/extensions/python/runtime/src/zserio/walker.py
+++ b/compiler/extensions/python/runtime/src/zserio/walker.py
@@ -476,7 +476,7 @@ class RegexWalkFilter(WalkFilter):
         # (note that array is never None)
         for i, element in enumerate(array):
             self._current_path[-1] = member_info.schema_name + f"[{i}]"
-            if self._match_subtree(element, member_info):
+            if self._path_regex.match(self._get_current_path()) or self._match_subtree(element, member_info):
                 return True
         self._current_path[-1] = member_info.schema_name
         return False
-- 
2.43.0


From aeb63ed4b8de5e6c07382c357acbbb59341dbdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 23/59] fix: refused end of a compound leaves the Java tree
 creator unchanged

---
 .../runtime/src/zserio/runtime/creator/ZserioTreeCreator.java  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/creator/ZserioTreeCreator.java b/compiler/extensions/java/runtime/src/zserio/runtime/creator/ZserioTreeCreator.java
index 7f3451e..09ded71 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/creator/ZserioTreeCreator.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/creator/ZserioTreeCreator.java
@@ -143,10 +143,11 @@ public final class ZserioTreeCreator
             throw new ZserioError("ZserioTreeCreator: Cannot end compound in state '" + state + "'" +
                     (fieldInfoStack.isEmpty() ? " (expecting endRoot)!" : "!"));
 
-        final FieldInfo fieldInfo = fieldInfoStack.pop();
+        final FieldInfo fieldInfo = fieldInfoStack.peek();
         if (fieldInfo.isArray())
             throw new ZserioError("ZserioTreeCreator: Cannot end compound, it's an array element!");
 
+        fieldInfoStack.pop();
         final Object compound = valueStack.pop();
         final TypeInfo parentTypeInfo = getTypeInfo();
         final Object parent = valueStack.peek();
-- 
2.43.0


From 0b0c2cc59acb0d52a54c0283f6ec5d682189a81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:26 +0000
Subject: [PATCH 24/59] fix: Python choice read with an empty case has no
 choice set, so that it can be compared

---
 compiler/extensions/python/freemarker/Choice.py.ftl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/python/freemarker/Choice.py.ftl b/compiler/extensions/python/freemarker/Choice.py.ftl
index 310293e..c95f842 100644
--- a/compiler/extensions/python/freemarker/Choice.py.ftl
+++ b/compiler/extensions/python/freemarker/Choice.py.ftl
@@ -509,7 +509,7 @@ ${I}pass
         <@compound_read_field member.compoundField, name, indent, packed/>
     <#else>
         <#local I>${""?left_pad(indent * 4)}</#local>
-${I}pass
+${I}self._choice = None
     </#if>
 </#macro>
     def read(self, zserio_reader: zserio.BitStreamReader) -> None:
-- 
2.43.0


From fe0868ae09dbcc02efc6c50866502b26f31342c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 25/59] fix: equal objects have equal hash codes also when they
 differ in the sign of a zero (Python, C++)

---
 compiler/extensions/cpp/runtime/src/zserio/HashCodeUtil.h | 4 ++--
 compiler/extensions/python/runtime/src/zserio/hashcode.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/HashCodeUtil.h b/compiler/extensions/cpp/runtime/src/zserio/HashCodeUtil.h
index 77b6897..ebd5748 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/HashCodeUtil.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/HashCodeUtil.h
@@ -72,7 +72,7 @@ inline typename std::enable_if<std::is_integral<T>::value && (sizeof(T) > 4), ui
  */
 inline uint32_t calcHashCode(uint32_t seedValue, float value)
 {
-    return calcHashCode(seedValue, convertFloatToUInt32(value));
+    return calcHashCode(seedValue, convertFloatToUInt32(value + 0.0F)); // -0.0 is equal to 0.0
 }
 
 /**
@@ -85,7 +85,7 @@ inline uint32_t calcHashCode(uint32_t seedValue, float value)
  */
 inline uint32_t calcHashCode(uint32_t seedValue, double value)
 {
-    return calcHashCode(seedValue, convertDoubleToUInt64(value));
+    return calcHashCode(seedValue, convertDoubleToUInt64(value + 0.0)); // -0.0 is equal to 0.0
 }
 
 /**
diff --git a/compiler/extensions/python/runtime/src/zserio/hashcode.py b/compiler/extensions/python/runtime/src/zserio/hashcode.py
index edd055a..de1a312 100644
--- a/compiler/extensions/python/runtime/src/zserio/hashcode.py
+++ b/compiler/extensions/python/runtime/src/zserio/hashcode.py
@@ -65,7 +65,7 @@ def calc_hashcode_float32(seed_value: int, value: float) -> int:
     if value is None:
         return calc_hashcode_int32(seed_value, 0)
 
-    int_value = float_to_uint32(value)
+    int_value = float_to_uint32(value + 0.0)  # -0.0 is equal to 0.0
     return calc_hashcode_int32(seed_value, int_value)
 
 
@@ -81,7 +81,7 @@ def calc_hashcode_float64(seed_value: int, value: float) -> int:
     if value is None:
         return calc_hashcode_int32(seed_value, 0)
 
-    int_value = float_to_uint64(value)
+    int_value = float_to_uint64(value + 0.0)  # -0.0 is equal to 0.0
     return calc_hashcode_int64(seed_value, int_value)
 
 
-- 
2.43.0


From f7bb0d7a37266cdca09f66b5bc689d0586c43595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 26/59] fix: Java equals of objects with an optional enum set
 in only one of them

---
 compiler/extensions/java/freemarker/CompoundField.inc.ftl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/java/freemarker/CompoundField.inc.ftl b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
index 691520c..0935a6e 100644
--- a/compiler/extensions/java/freemarker/CompoundField.inc.ftl
+++ b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
@@ -320,8 +320,8 @@ java.lang.Double.doubleToLongBits(<@compound_get_field field/>) == java.lang.Dou
     <#elseif field.typeInfo.isBytes>
 ((<@compound_get_field field/> == null) ? that.<@compound_get_field field/> == null : java.util.Arrays.equals(<@compound_get_field field/>, that.<@compound_get_field field/>))<#rt>
     <#elseif field.typeInfo.isEnum>
-        <#-- enum type: compare by getValue() and == -->
-((<@compound_get_field field/> == null) ? that.<@compound_get_field field/> == null : <@compound_get_field field/>.getValue() == that.<@compound_get_field field/>.getValue())<#rt>
+        <#-- enum type: items are unique objects, compare by == which is fine also with a null -->
+<@compound_get_field field/> == that.<@compound_get_field field/><#rt>
     <#else>
         <#-- complex type: compare by equals() but check for possible null -->
 ((<@compound_get_field field/> == null) ? that.<@compound_get_field field/> == null : <@compound_get_field field/>.equals(that.<@compound_get_field field/>))<#rt>
-- 
2.43.0


From bf8b5b2895e4098dc6f6ad248f67ae170ac39014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:26 +0000
Subject: [PATCH 27/59] fix: Java optional fields with a default value read as
 missing kept the default value

---
 compiler/extensions/java/freemarker/CompoundField.inc.ftl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/extensions/java/freemarker/CompoundField.inc.ftl b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
index 0935a6e..7d8b696 100644
--- a/compiler/extensions/java/freemarker/CompoundField.inc.ftl
+++ b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
@@ -127,6 +127,10 @@ ${I}if (in.readBool())
         </#if>
 ${I}{
         <@compound_read_field_inner field, compoundName, indent + 1, packed/>
+${I}}
+${I}else
+${I}{
+${I}    <@field_member_name field/> = null; // forget the default value
 ${I}}
     <#else>
         <@compound_read_field_inner field, compoundName, indent, packed/>
-- 
2.43.0


From 83327df1b38ce0cdc2889c5b34945c8a1a6f4f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:29 +0000
Subject: [PATCH 28/59] fix: C++ choice with an unhandled removed enum item
 generated code that does not compile

---
 .../src/zserio/extension/cpp/ChoiceEmitterTemplateData.java    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/cpp/src/zserio/extension/cpp/ChoiceEmitterTemplateData.java b/compiler/extensions/cpp/src/zserio/extension/cpp/ChoiceEmitterTemplateData.java
index 42a44f5..7907bba 100644
--- a/compiler/extensions/cpp/src/zserio/extension/cpp/ChoiceEmitterTemplateData.java
+++ b/compiler/extensions/cpp/src/zserio/extension/cpp/ChoiceEmitterTemplateData.java
@@ -76,7 +76,8 @@ public final class ChoiceEmitterTemplateData extends CompoundTypeTemplateData
             for (EnumItem item : choiceType.getUnhandledEnumItems())
             {
                 final String fullName = CppFullNameFormatter.getFullName(
-                        selEnumType.getPackage().getPackageName(), selEnumType.getName(), item.getName());
+                        selEnumType.getPackage().getPackageName(), selEnumType.getName(),
+                        AccessorNameFormatter.getEnumeratorName(item));
                 this.unhandledEnumItems.add(fullName);
             }
         }
-- 
2.43.0


From 40baa4d5b023150d966aba610bee7b9a2ceea2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:29 +0000
Subject: [PATCH 29/59] fix: Java choice on uint64 accepts all case
 expressions, not only small decimal literals

---
 compiler/extensions/java/freemarker/Choice.java.ftl       | 2 +-
 .../zserio/extension/java/ChoiceEmitterTemplateData.java  | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/java/freemarker/Choice.java.ftl b/compiler/extensions/java/freemarker/Choice.java.ftl
index 779ac48..1b44bae 100644
--- a/compiler/extensions/java/freemarker/Choice.java.ftl
+++ b/compiler/extensions/java/freemarker/Choice.java.ftl
@@ -11,7 +11,7 @@
         <#list caseList as case>
             <#if case_index != 0>
  ||
-                 </#if>selector.compareTo(new java.math.BigInteger("${case.expressionForIf}")) == 0<#rt>
+                 </#if>selector.compareTo(new java.math.BigInteger("${case.integerValue}")) == 0<#rt>
         </#list>
     <#elseif selectorExpressionBitmaskTypeName??>
         <#list caseList as case>
diff --git a/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java b/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java
index 6fd06b3..07b2912 100644
--- a/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java
+++ b/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java
@@ -129,6 +129,8 @@ public final class ChoiceEmitterTemplateData extends CompoundTypeTemplateData
                 final ExpressionFormatter javaCaseExpressionFormatter =
                         context.getJavaCaseExpressionFormatter();
                 expressionForIf = javaExpressionFormatter.formatGetter(choiceExpression);
+                final BigInteger value = choiceExpression.getIntegerValue();
+                integerValue = (value != null) ? value.toString() : null;
                 expressionForCase = javaCaseExpressionFormatter.formatGetter(choiceExpression);
             }
 
@@ -137,12 +139,18 @@ public final class ChoiceEmitterTemplateData extends CompoundTypeTemplateData
                 return expressionForIf;
             }
 
+            public String getIntegerValue()
+            {
+                return integerValue;
+            }
+
             public String getExpressionForCase()
             {
                 return expressionForCase;
             }
 
             public final String expressionForIf;
+            public final String integerValue;
             public final String expressionForCase;
         }
 
-- 
2.43.0


From 0a3784a071cbb3d4382eeb341e2bb62c69de88d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:17 +0000
Subject: [PATCH 30/59] fix: C++ SQL reader decodes blobs of partially read
 rows with the index of the result column

---
 compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
index 218bc7e..9dcd320 100644
--- a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
+++ b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
@@ -200,8 +200,8 @@ ${name}::Row ${name}::Reader::next()
         if (sqlite3_column_type(m_stmt.get(), index) != SQLITE_NULL)
         {
         <#if field.sqlTypeData.isBlob>
-            const void* blobData = sqlite3_column_blob(m_stmt.get(), ${field?index});
-            const int blobDataLength = sqlite3_column_bytes(m_stmt.get(), ${field?index});
+            const void* blobData = sqlite3_column_blob(m_stmt.get(), index);
+            const int blobDataLength = sqlite3_column_bytes(m_stmt.get(), index);
             ::zserio::BitStreamReader reader(static_cast<const uint8_t*>(blobData),
                     static_cast<size_t>(blobDataLength));
             <@read_blob field, "m_parameterProvider"/>
-- 
2.43.0


From 79a21678584b0e9861a2ca8cd565d4dcd345489f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:17 +0000
Subject: [PATCH 31/59] fix: C++ validation of a table stopped by the observer
 is not reported as stopped by a type error

---
 compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
index 9dcd320..78f0dc9 100644
--- a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
+++ b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
@@ -358,7 +358,7 @@ bool ${name}::validate(::zserio::IValidationObserver& validationObserver<#rt>
             ++numberOfValidatedRows;
 
         <#list fields as field>
-            if (!validateType${field.name?cap_first}(validationObserver, statement.get(), continueValidation))
+            if (!validateType${field.name?cap_first}(validationObserver, statement.get(), continueTableValidation))
             {
                 continue;
             }
-- 
2.43.0


From 554bb9efae62cf7b91df28a3f679151eb2e9d9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:17 +0000
Subject: [PATCH 32/59] fix: C++ failed SQL write or schema change no longer
 leaves its transaction open

---
 .../cpp/freemarker/SqlDatabase.cpp.ftl        | 57 +++++++++++++------
 .../cpp/freemarker/SqlTable.cpp.ftl           | 52 ++++++++++-------
 .../cpp/runtime/src/zserio/SqliteConnection.h | 20 +++++++
 3 files changed, 89 insertions(+), 40 deletions(-)

diff --git a/compiler/extensions/cpp/freemarker/SqlDatabase.cpp.ftl b/compiler/extensions/cpp/freemarker/SqlDatabase.cpp.ftl
index 918096c..b31e6af 100644
--- a/compiler/extensions/cpp/freemarker/SqlDatabase.cpp.ftl
+++ b/compiler/extensions/cpp/freemarker/SqlDatabase.cpp.ftl
@@ -118,36 +118,50 @@ ${field.typeInfo.typeFullName}& ${name}::${field.getterName}() noexcept
 void ${name}::createSchema()
 {
     const bool wasTransactionStarted = m_db.startTransaction();
-
+    try
+    {
     <#list fields as field>
-    <@sql_field_member_name field/>->createTable();
+        <@sql_field_member_name field/>->createTable();
     </#list>
 
-    m_db.endTransaction(wasTransactionStarted);
+        m_db.endTransaction(wasTransactionStarted);
+    }
+    catch (...)
+    {
+        m_db.rollbackTransaction(wasTransactionStarted);
+        throw;
+    }
 }
 
 void ${name}::createSchema(const <@set_type_name types.string.name/>&<#if hasWithoutRowIdTable> withoutRowIdTableNamesBlackList</#if>)
 {
     <#if hasWithoutRowIdTable>
     const bool wasTransactionStarted = m_db.startTransaction();
-
+    try
+    {
         <#list fields as field>
             <#if field.isWithoutRowIdTable>
-    if (withoutRowIdTableNamesBlackList.find(::zserio::stringViewToString(
-            <@sql_db_table_name_getter field/>, get_allocator_ref())) != withoutRowIdTableNamesBlackList.end())
-    {
-        <@sql_field_member_name field/>->createOrdinaryRowIdTable();
-    }
-    else
-    {
-        <@sql_field_member_name field/>->createTable();
-    }
+        if (withoutRowIdTableNamesBlackList.find(::zserio::stringViewToString(
+                <@sql_db_table_name_getter field/>, get_allocator_ref())) != withoutRowIdTableNamesBlackList.end())
+        {
+            <@sql_field_member_name field/>->createOrdinaryRowIdTable();
+        }
+        else
+        {
+            <@sql_field_member_name field/>->createTable();
+        }
             <#else>
-    <@sql_field_member_name field/>->createTable();
+        <@sql_field_member_name field/>->createTable();
             </#if>
         </#list>
 
-    m_db.endTransaction(wasTransactionStarted);
+        m_db.endTransaction(wasTransactionStarted);
+    }
+    catch (...)
+    {
+        m_db.rollbackTransaction(wasTransactionStarted);
+        throw;
+    }
     <#else>
     createSchema();
     </#if>
@@ -156,12 +170,19 @@ void ${name}::createSchema(const <@set_type_name types.string.name/>&<#if hasWit
 void ${name}::deleteSchema()
 {
     const bool wasTransactionStarted = m_db.startTransaction();
-
+    try
+    {
     <#list fields as field>
-    <@sql_field_member_name field/>->deleteTable();
+        <@sql_field_member_name field/>->deleteTable();
     </#list>
 
-    m_db.endTransaction(wasTransactionStarted);
+        m_db.endTransaction(wasTransactionStarted);
+    }
+    catch (...)
+    {
+        m_db.rollbackTransaction(wasTransactionStarted);
+        throw;
+    }
 }
 </#if>
 <#if withValidationCode>
diff --git a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
index 78f0dc9..25031ec 100644
--- a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
+++ b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
@@ -265,34 +265,42 @@ void ${name}::write(<#if needsParameterProvider>IParameterProvider& parameterPro
 
     // write rows
     const bool wasTransactionStarted = m_db.startTransaction();
-    ::std::unique_ptr<sqlite3_stmt, ::zserio::SqliteFinalizer> statement(m_db.prepareStatement(sqlQuery));
-
-    for (Row& row : rows)
+    try
     {
-        writeRow(<#if needsParameterProvider>parameterProvider, </#if>row, columnsMapping, *statement);
-        int result = sqlite3_step(statement.get());
-        if (result != SQLITE_DONE)
-        {
-            throw ::zserio::SqliteException("Write: sqlite3_step() failed: ") <<
-                    ::zserio::SqliteErrorCode(result);
-        }
+        ::std::unique_ptr<sqlite3_stmt, ::zserio::SqliteFinalizer> statement(m_db.prepareStatement(sqlQuery));
 
-        result = sqlite3_clear_bindings(statement.get());
-        if (result != SQLITE_OK)
+        for (Row& row : rows)
         {
-            throw ::zserio::SqliteException("Write: sqlite3_clear_bindings() failed: ") <<
-                    ::zserio::SqliteErrorCode(result);
-        }
+            writeRow(<#if needsParameterProvider>parameterProvider, </#if>row, columnsMapping, *statement);
+            int result = sqlite3_step(statement.get());
+            if (result != SQLITE_DONE)
+            {
+                throw ::zserio::SqliteException("Write: sqlite3_step() failed: ") <<
+                        ::zserio::SqliteErrorCode(result);
+            }
 
-        result = sqlite3_reset(statement.get());
-        if (result != SQLITE_OK)
-        {
-            throw ::zserio::SqliteException("Write: sqlite3_reset() failed: ") <<
-                    ::zserio::SqliteErrorCode(result);
+            result = sqlite3_clear_bindings(statement.get());
+            if (result != SQLITE_OK)
+            {
+                throw ::zserio::SqliteException("Write: sqlite3_clear_bindings() failed: ") <<
+                        ::zserio::SqliteErrorCode(result);
+            }
+
+            result = sqlite3_reset(statement.get());
+            if (result != SQLITE_OK)
+            {
+                throw ::zserio::SqliteException("Write: sqlite3_reset() failed: ") <<
+                        ::zserio::SqliteErrorCode(result);
+            }
         }
-    }
 
-    m_db.endTransaction(wasTransactionStarted);
+        m_db.endTransaction(wasTransactionStarted);
+    }
+    catch (...)
+    {
+        m_db.rollbackTransaction(wasTransactionStarted);
+        throw;
+    }
 }
 
 void ${name}::update(<#if needsParameterProvider>IParameterProvider& parameterProvider, </#if>Row& row, <#rt>
diff --git a/compiler/extensions/cpp/runtime/src/zserio/SqliteConnection.h b/compiler/extensions/cpp/runtime/src/zserio/SqliteConnection.h
index c8f3a8d..8c3d32a 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/SqliteConnection.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/SqliteConnection.h
@@ -121,6 +121,17 @@ public:
      */
     void endTransaction(bool wasTransactionStarted);
 
+    /**
+     * Rolls back the current transaction.
+     *
+     * It is intended to be called when a query executed within the transaction has failed, so that neither
+     * the transaction remains open nor the incomplete changes are kept. Never throws since the original failure
+     * is to be reported.
+     *
+     * \param wasTransactionStarted When false, the call does actually nothing.
+     */
+    void rollbackTransaction(bool wasTransactionStarted) noexcept;
+
 private:
     sqlite3* m_connection;
     ConnectionType m_connectionType;
@@ -203,6 +214,15 @@ inline void SqliteConnection::endTransaction(bool wasTransactionStarted)
     }
 }
 
+inline void SqliteConnection::rollbackTransaction(bool wasTransactionStarted) noexcept
+{
+    // SQLite might have already rolled the transaction back automatically because of the failure
+    if (wasTransactionStarted && sqlite3_get_autocommit(m_connection) == 0)
+    {
+        (void)sqlite3_exec(m_connection, "ROLLBACK;", nullptr, nullptr, nullptr);
+    }
+}
+
 } // namespace zserio
 
 #endif // ZSERIO_SQL_CONNECTION_H_INC
-- 
2.43.0


From 662308b0f16a2d378adbe04163a7a8db4c034d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:17 +0000
Subject: [PATCH 33/59] fix: Java failed SQL write or schema change no longer
 leaves its transaction open

---
 .../java/freemarker/SqlDatabase.java.ftl      | 69 +++++++++++++++----
 .../java/freemarker/SqlTable.java.ftl         | 44 ++++++++++--
 2 files changed, 93 insertions(+), 20 deletions(-)

diff --git a/compiler/extensions/java/freemarker/SqlDatabase.java.ftl b/compiler/extensions/java/freemarker/SqlDatabase.java.ftl
index 2f1acec..4dce40a 100644
--- a/compiler/extensions/java/freemarker/SqlDatabase.java.ftl
+++ b/compiler/extensions/java/freemarker/SqlDatabase.java.ftl
@@ -207,12 +207,19 @@ public final class ${name} implements zserio.runtime.SqlDatabase<#if !withWriter
     public void createSchema() throws java.sql.SQLException
     {
         final boolean wasTransactionStarted = startTransaction();
-
+        try
+        {
         <#list fields as field>
-        this.<@sql_field_member_name field/>.createTable();
+            this.<@sql_field_member_name field/>.createTable();
         </#list>
 
-        endTransaction(wasTransactionStarted);
+            endTransaction(wasTransactionStarted);
+        }
+        catch (java.lang.Throwable exception)
+        {
+            rollbackTransaction(wasTransactionStarted, exception);
+            throw exception;
+        }
     }
 
     <#assign hasWithoutRowIdTable=false/>
@@ -228,19 +235,26 @@ public final class ${name} implements zserio.runtime.SqlDatabase<#if !withWriter
     {
     <#if hasWithoutRowIdTable>
         final boolean wasTransactionStarted = startTransaction();
-
+        try
+        {
         <#list fields as field>
             <#if field.isWithoutRowIdTable>
-        if (withoutRowIdTableNamesBlackList.contains(${field.name}_TABLE_NAME))
-            this.<@sql_field_member_name field/>.createOrdinaryRowIdTable();
-        else
-            this.<@sql_field_member_name field/>.createTable();
+            if (withoutRowIdTableNamesBlackList.contains(${field.name}_TABLE_NAME))
+                this.<@sql_field_member_name field/>.createOrdinaryRowIdTable();
+            else
+                this.<@sql_field_member_name field/>.createTable();
             <#else>
-        this.<@sql_field_member_name field/>.createTable();
+            this.<@sql_field_member_name field/>.createTable();
             </#if>
         </#list>
 
-        endTransaction(wasTransactionStarted);
+            endTransaction(wasTransactionStarted);
+        }
+        catch (java.lang.Throwable exception)
+        {
+            rollbackTransaction(wasTransactionStarted, exception);
+            throw exception;
+        }
     <#else>
         createSchema();
     </#if>
@@ -250,12 +264,19 @@ public final class ${name} implements zserio.runtime.SqlDatabase<#if !withWriter
     public void deleteSchema() throws java.sql.SQLException
     {
         final boolean wasTransactionStarted = startTransaction();
-
+        try
+        {
     <#list fields as field>
-        this.<@sql_field_member_name field/>.deleteTable();
+            this.<@sql_field_member_name field/>.deleteTable();
     </#list>
 
-        endTransaction(wasTransactionStarted);
+            endTransaction(wasTransactionStarted);
+        }
+        catch (java.lang.Throwable exception)
+        {
+            rollbackTransaction(wasTransactionStarted, exception);
+            throw exception;
+        }
     }
 </#if>
 <#if withValidationCode>
@@ -374,6 +395,28 @@ public final class ${name} implements zserio.runtime.SqlDatabase<#if !withWriter
             connection.setAutoCommit(true);
         }
     }
+
+    private void rollbackTransaction(boolean wasTransactionStarted, java.lang.Throwable failure)
+    {
+        if (wasTransactionStarted)
+        {
+            try
+            {
+                try
+                {
+                    connection.rollback();
+                }
+                finally
+                {
+                    connection.setAutoCommit(true);
+                }
+            }
+            catch (java.sql.SQLException exception)
+            {
+                failure.addSuppressed(exception);
+            }
+        }
+    }
 </#if>
 
     private static final java.lang.String DATABASE_NAME = "${name}";
diff --git a/compiler/extensions/java/freemarker/SqlTable.java.ftl b/compiler/extensions/java/freemarker/SqlTable.java.ftl
index 8be2561..929c959 100644
--- a/compiler/extensions/java/freemarker/SqlTable.java.ftl
+++ b/compiler/extensions/java/freemarker/SqlTable.java.ftl
@@ -306,17 +306,25 @@ public class ${name}
 
         // write rows
         final boolean wasTransactionStarted = startTransaction();
-        try (final java.sql.PreparedStatement statement = connection.prepareStatement(sqlQuery.toString()))
+        try
         {
-            for (${rowName} row : rows)
+            try (final java.sql.PreparedStatement statement = connection.prepareStatement(sqlQuery.toString()))
             {
-                writeRow(row, columns, statement);
-                statement.addBatch();
+                for (${rowName} row : rows)
+                {
+                    writeRow(row, columns, statement);
+                    statement.addBatch();
+                }
+                statement.executeBatch();
             }
-            statement.executeBatch();
-        }
 
-        endTransaction(wasTransactionStarted);
+            endTransaction(wasTransactionStarted);
+        }
+        catch (java.lang.Throwable exception)
+        {
+            rollbackTransaction(wasTransactionStarted, exception);
+            throw exception;
+        }
     }
 
     <#if withCodeComments>
@@ -565,6 +573,28 @@ public class ${name}
         }
     }
 
+    private void rollbackTransaction(boolean wasTransactionStarted, java.lang.Throwable failure)
+    {
+        if (wasTransactionStarted)
+        {
+            try
+            {
+                try
+                {
+                    connection.rollback();
+                }
+                finally
+                {
+                    connection.setAutoCommit(true);
+                }
+            }
+            catch (java.sql.SQLException exception)
+            {
+                failure.addSuppressed(exception);
+            }
+        }
+    }
+
     private java.lang.StringBuilder getCreateTableQuery() throws java.sql.SQLException
     {
         final java.lang.StringBuilder sqlQuery = new java.lang.StringBuilder("CREATE <#if virtualTableUsing??>VIRTUAL </#if>TABLE ");
-- 
2.43.0


From 3e4be29a1506e4e9884e7f313879413ba9b19d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:17 +0000
Subject: [PATCH 34/59] fix: Python failed SQL write or schema change no longer
 leaves its transaction open

---
 .../python/freemarker/SqlDatabase.py.ftl      | 37 +++++++++++++------
 .../python/freemarker/SqlTable.py.ftl         | 16 +++++---
 2 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/compiler/extensions/python/freemarker/SqlDatabase.py.ftl b/compiler/extensions/python/freemarker/SqlDatabase.py.ftl
index ee2dd20..4f3fbd6 100644
--- a/compiler/extensions/python/freemarker/SqlDatabase.py.ftl
+++ b/compiler/extensions/python/freemarker/SqlDatabase.py.ftl
@@ -169,25 +169,32 @@ class ${name}:
         if has_autocommit:
             cursor = self._connection.cursor()
             cursor.execute("BEGIN")
+
+        try:
     <#if hasWithoutRowIdTable>
 
-        if without_rowid_table_names_blacklist is None:
-            without_rowid_table_names_blacklist = []
+            if without_rowid_table_names_blacklist is None:
+                without_rowid_table_names_blacklist = []
     </#if>
 
     <#list fields as field>
         <#if field.isWithoutRowIdTable>
-        if self.<@table_name_constant field/> in without_rowid_table_names_blacklist:
-            self.<@field_member_name field/>.create_ordinary_rowid_table()
-        else:
-            self.<@field_member_name field/>.create_table()
+            if self.<@table_name_constant field/> in without_rowid_table_names_blacklist:
+                self.<@field_member_name field/>.create_ordinary_rowid_table()
+            else:
+                self.<@field_member_name field/>.create_table()
         <#else>
-        self.<@field_member_name field/>.create_table()
+            self.<@field_member_name field/>.create_table()
         </#if>
     </#list>
 
-        if has_autocommit:
-            cursor.execute("COMMIT")
+            if has_autocommit:
+                cursor.execute("COMMIT")
+        except BaseException:
+            # SQLite might have already rolled the transaction back automatically because of the failure
+            if has_autocommit and not self._connection.getautocommit():
+                cursor.execute("ROLLBACK")
+            raise
 
     def delete_schema(self) -> None:
     <#if withCodeComments>
@@ -201,12 +208,18 @@ class ${name}:
             cursor = self._connection.cursor()
             cursor.execute("BEGIN")
 
+        try:
     <#list fields as field>
-        self.<@field_member_name field/>.delete_table()
+            self.<@field_member_name field/>.delete_table()
     </#list>
 
-        if has_autocommit:
-            cursor.execute("COMMIT")
+            if has_autocommit:
+                cursor.execute("COMMIT")
+        except BaseException:
+            # SQLite might have already rolled the transaction back automatically because of the failure
+            if has_autocommit and not self._connection.getautocommit():
+                cursor.execute("ROLLBACK")
+            raise
 </#if>
 
     def _init_tables(self, table_name_to_attached_db_name_map: typing.Dict[str, str]) -> None:
diff --git a/compiler/extensions/python/freemarker/SqlTable.py.ftl b/compiler/extensions/python/freemarker/SqlTable.py.ftl
index f8faaa2..29548ea 100644
--- a/compiler/extensions/python/freemarker/SqlTable.py.ftl
+++ b/compiler/extensions/python/freemarker/SqlTable.py.ftl
@@ -306,11 +306,17 @@ class ${name}:
         if has_autocommit:
             cursor.execute("BEGIN")
 
-        for row in rows:
-            cursor.execute(sql_query, <#if needsRowConversion>self._write_row(row, column_map)<#else>row</#if>)
-
-        if has_autocommit:
-            cursor.execute("COMMIT")
+        try:
+            for row in rows:
+                cursor.execute(sql_query, <#if needsRowConversion>self._write_row(row, column_map)<#else>row</#if>)
+
+            if has_autocommit:
+                cursor.execute("COMMIT")
+        except BaseException:
+            # SQLite might have already rolled the transaction back automatically because of the failure
+            if has_autocommit and not self._connection.getautocommit():
+                cursor.execute("ROLLBACK")
+            raise
 
     def update(self, row: '${name}.${rowAnnotationName}', where_condition: str) -> None:
         """
-- 
2.43.0


From 5510cd201e30cbbb20d1899dc0a28bc9cf010755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:17 +0000
Subject: [PATCH 35/59] fix: Java SQL columns of unsigned 64 bit types are
 stored and read as unsigned, enums and bitmasks of them compile

---
 .../java/freemarker/SqlTable.java.ftl         | 38 ++++++++++++-------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/compiler/extensions/java/freemarker/SqlTable.java.ftl b/compiler/extensions/java/freemarker/SqlTable.java.ftl
index 929c959..c33e094 100644
--- a/compiler/extensions/java/freemarker/SqlTable.java.ftl
+++ b/compiler/extensions/java/freemarker/SqlTable.java.ftl
@@ -625,6 +625,12 @@ public class ${name}
     }
 
 </#if>
+<#macro unsigned_long_to_big_integer name>
+    new java.math.BigInteger(java.lang.Long.toUnsignedString(${name}))<#t>
+</#macro>
+<#function sql_field_requires_big_int field>
+    <#return field.requiresBigInt || (field.underlyingTypeInfo?? && field.underlyingTypeInfo.requiresBigInt)>
+</#function>
 <#macro read_blob field called_from_validation indent>
     <#local I>${""?left_pad(indent * 4)}</#local>
     <#if called_from_validation>
@@ -664,11 +670,11 @@ ${I}                (${parameter.typeInfo.typeFullName})(${parameter.expression}
     <#assign valueVarName="value${field.name?cap_first}"/>
     <#if field.sqlTypeData.isBlob>
             final byte[] ${valueVarName} = resultSet.getBytes(index<#sep>++</#sep>);
+    <#elseif sql_field_requires_big_int(field)>
+            final long ${valueVarName} = resultSet.getLong(index<#sep>++</#sep>);
     <#elseif field.underlyingTypeInfo??>
             final ${field.underlyingTypeInfo.typeFullName} ${valueVarName} = <#rt>
                     <#lt>resultSet.get${field.underlyingTypeInfo.typeName?cap_first}(index<#sep>++</#sep>);
-    <#elseif field.requiresBigInt>
-            final long ${valueVarName} = resultSet.getLong(index<#sep>++</#sep>);
     <#else>
             final ${field.typeInfo.typeFullName} ${valueVarName} = resultSet.get${field.typeInfo.typeName?cap_first}(index<#sep>++</#sep>);
     </#if>
@@ -680,11 +686,13 @@ ${I}                (${parameter.typeInfo.typeFullName})(${parameter.expression}
             <@read_blob field, false, 3/>
                 row.set${field.name?cap_first}(blob);
     <#elseif field.typeInfo.isEnum>
-                row.set${field.name?cap_first}(${field.typeInfo.typeFullName}.toEnum(${valueVarName}));
+                row.set${field.name?cap_first}(${field.typeInfo.typeFullName}.toEnum(<#rt>
+                        <#lt><#if sql_field_requires_big_int(field)><@unsigned_long_to_big_integer valueVarName/><#else>${valueVarName}</#if>));
     <#elseif field.typeInfo.isBitmask>
-                row.set${field.name?cap_first}(new ${field.typeInfo.typeFullName}(${valueVarName}));
+                row.set${field.name?cap_first}(new ${field.typeInfo.typeFullName}(<#rt>
+                        <#lt><#if sql_field_requires_big_int(field)><@unsigned_long_to_big_integer valueVarName/><#else>${valueVarName}</#if>));
     <#elseif field.requiresBigInt>
-                row.set${field.name?cap_first}(java.math.BigInteger.valueOf(${valueVarName}));
+                row.set${field.name?cap_first}(<@unsigned_long_to_big_integer valueVarName/>);
     <#else>
                 row.set${field.name?cap_first}(${valueVarName});
     </#if>
@@ -714,13 +722,14 @@ ${I}                (${parameter.typeInfo.typeFullName})(${parameter.expression}
         <#if field.sqlTypeData.isBlob>
                 final byte[] blobData = zserio.runtime.io.SerializeUtil.serializeToBytes(row.get${field.name?cap_first}());
                 statement.setBytes(index<#sep>++</#sep>, blobData);
+        <#elseif sql_field_requires_big_int(field)>
+                final long bigIntValue =
+                        row.get${field.name?cap_first}()<#if field.underlyingTypeInfo??>.getValue()</#if>.longValue();
+                statement.setLong(index<#sep>++</#sep>, bigIntValue);
         <#elseif field.underlyingTypeInfo??>
                 final ${field.underlyingTypeInfo.typeFullName} underlyingValue =
                         row.get${field.name?cap_first}().getValue();
                 statement.set${field.underlyingTypeInfo.typeName?cap_first}(index<#sep>++</#sep>, underlyingValue);
-        <#elseif field.requiresBigInt>
-                final long bigIntValue = row.get${field.name?cap_first}().longValue();
-                statement.setLong(index<#sep>++</#sep>, bigIntValue);
         <#else>
                 final ${field.typeInfo.typeFullName} value = row.get${field.name?cap_first}();
                 statement.set${field.typeInfo.typeName?cap_first}(index<#sep>++</#sep>, value);
@@ -927,7 +936,7 @@ ${I}                (${parameter.typeInfo.typeFullName})(${parameter.expression}
             java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet,
             ${rowName} row) throws java.sql.SQLException
     {
-                <#if field.typeInfo.isEnum || field.rangeCheckData.sqlRangeData?? || field.requiresBigInt>
+                <#if field.underlyingTypeInfo?? || field.rangeCheckData.sqlRangeData?? || field.requiresBigInt>
         final long value = resultSet.getLong(${field?index + 1});
                 <#else>
         final ${field.typeInfo.typeFullName} value = resultSet.get${field.typeInfo.typeName?cap_first}(${field?index + 1});
@@ -941,7 +950,8 @@ ${I}                (${parameter.typeInfo.typeFullName})(${parameter.expression}
                     <#if field.typeInfo.isEnum>
             try
             {
-                ${field.typeInfo.typeFullName}.toEnum((${field.underlyingTypeInfo.typeFullName})value);
+                ${field.typeInfo.typeFullName}.toEnum(<#rt>
+                        <#lt><#if sql_field_requires_big_int(field)><@unsigned_long_to_big_integer "value"/><#else>(${field.underlyingTypeInfo.typeFullName})value</#if>);
             }
             catch (java.lang.IllegalArgumentException exception)
             {
@@ -955,12 +965,14 @@ ${I}                (${parameter.typeInfo.typeFullName})(${parameter.expression}
                 </#if>
                 <#if field.typeInfo.isEnum>
             row.set${field.name?cap_first}(
-                    ${field.typeInfo.typeFullName}.toEnum((${field.underlyingTypeInfo.typeFullName})value));
+                    ${field.typeInfo.typeFullName}.toEnum(<#rt>
+                            <#lt><#if sql_field_requires_big_int(field)><@unsigned_long_to_big_integer "value"/><#else>(${field.underlyingTypeInfo.typeFullName})value</#if>));
                 <#elseif field.typeInfo.isBitmask>
             row.set${field.name?cap_first}(
-                    new ${field.typeInfo.typeFullName}((${field.underlyingTypeInfo.typeFullName})value));
+                    new ${field.typeInfo.typeFullName}(<#rt>
+                            <#lt><#if sql_field_requires_big_int(field)><@unsigned_long_to_big_integer "value"/><#else>(${field.underlyingTypeInfo.typeFullName})value</#if>));
                 <#elseif field.requiresBigInt>
-            row.set${field.name?cap_first}(java.math.BigInteger.valueOf(value));
+            row.set${field.name?cap_first}(<@unsigned_long_to_big_integer "value"/>);
                 <#elseif field.rangeCheckData.sqlRangeData??>
             row.set${field.name?cap_first}((${field.typeInfo.typeFullName})value);
                 <#else>
-- 
2.43.0


From b401c33e7bc93456c739bbd3bfd8c025c4b8ce5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:17 +0000
Subject: [PATCH 36/59] fix: Java and Python create SQL tables whose last field
 is virtual

---
 compiler/extensions/java/freemarker/SqlTable.java.ftl | 6 ++++--
 compiler/extensions/python/freemarker/SqlTable.py.ftl | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/compiler/extensions/java/freemarker/SqlTable.java.ftl b/compiler/extensions/java/freemarker/SqlTable.java.ftl
index c33e094..d85a8bf 100644
--- a/compiler/extensions/java/freemarker/SqlTable.java.ftl
+++ b/compiler/extensions/java/freemarker/SqlTable.java.ftl
@@ -606,10 +606,12 @@ public class ${name}
     </#if>
     <#if hasNonVirtualField || sqlConstraint??>
                 "(" +
+        <#assign firstNonVirtualField=true/>
         <#list fields as field>
             <#if !field.isVirtual>
-                "${field.name}<#if needsTypesInSchema> ${field.sqlTypeData.name}</#if>"<#rt>
-                    <#lt><#if field.sqlConstraint??> + " " + ${field.sqlConstraint}</#if><#if field?has_next> + ","</#if> +
+                "<#if !firstNonVirtualField>,</#if>${field.name}<#if needsTypesInSchema> ${field.sqlTypeData.name}</#if>"<#rt>
+                    <#lt><#if field.sqlConstraint??> + " " + ${field.sqlConstraint}</#if> +
+                <#assign firstNonVirtualField=false/>
             </#if>
         </#list>
         <#if hasNonVirtualField && sqlConstraint??>
diff --git a/compiler/extensions/python/freemarker/SqlTable.py.ftl b/compiler/extensions/python/freemarker/SqlTable.py.ftl
index 29548ea..33f4dce 100644
--- a/compiler/extensions/python/freemarker/SqlTable.py.ftl
+++ b/compiler/extensions/python/freemarker/SqlTable.py.ftl
@@ -387,10 +387,12 @@ class ${name}:
     </#if>
     <#if hasNonVirtualField || sqlConstraint??>
         sql_query += ("(" +
+        <#assign firstNonVirtualField=true/>
         <#list fields as field>
             <#if !field.isVirtual>
-                     "${field.name}<#if needsTypesInSchema> ${field.sqlTypeData.name}</#if>"<#rt>
-                     <#lt><#if field.sqlConstraint??> + " " + ${field.sqlConstraint}</#if><#if field_has_next> + ","</#if> +
+                     "<#if !firstNonVirtualField>,</#if>${field.name}<#if needsTypesInSchema> ${field.sqlTypeData.name}</#if>"<#rt>
+                     <#lt><#if field.sqlConstraint??> + " " + ${field.sqlConstraint}</#if> +
+                <#assign firstNonVirtualField=false/>
             </#if>
         </#list>
         <#if hasNonVirtualField && sqlConstraint??>
-- 
2.43.0


From d098cebcc9b12bdf8e3396af6909ad025e0e8d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:17 +0000
Subject: [PATCH 37/59] fix: Python SQL tables read, write and update selected
 columns without a conversion of rows

---
 .../python/freemarker/SqlTable.py.ftl         | 23 ++++---------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/compiler/extensions/python/freemarker/SqlTable.py.ftl b/compiler/extensions/python/freemarker/SqlTable.py.ftl
index 33f4dce..afe018f 100644
--- a/compiler/extensions/python/freemarker/SqlTable.py.ftl
+++ b/compiler/extensions/python/freemarker/SqlTable.py.ftl
@@ -14,17 +14,6 @@ from enum import Enum, IntEnum
         <#break>
     </#if>
 </#list>
-<#assign hasEnumField = false/>
-<#assign hasBitmaskField = false/>
-<#list fields as field>
-    <#if field.typeInfo.isEnum>
-        <#assign hasEnumField = true/>
-    </#if>
-    <#if field.typeInfo.isBitmask>
-        <#assign hasBitmaskField = true/>
-    </#if>
-</#list>
-<#assign needsRowConversion = hasBlobField || hasEnumField || hasBitmaskField/>
 <#assign needsParameterProvider = explicitParameters?has_content/>
 <#if withWriterCode>
     <#assign hasNonVirtualField=false/>
@@ -65,7 +54,7 @@ class ${name}:
 
 </#if>
         def __init__(self, <#rt>
-                <#lt>rows: typing.Iterator[<#if needsRowConversion>typing.Tuple<#else>'${name}.${rowAnnotationName}'</#if>]<#rt>
+                <#lt>rows: typing.Iterator[typing.Tuple]<#rt>
                 <#lt><#if needsParameterProvider>, parameter_provider: '${name}.IParameterProvider'</#if>,
                 column_map: typing.List[bool]
                 ) -> None:
@@ -88,9 +77,8 @@ class ${name}:
 
         def __iter__(self) -> typing.Iterator['${name}.${rowAnnotationName}']:
             for row in self._rows:
-                yield <#if needsRowConversion>self._read_row(row)<#else>row</#if>
+                yield self._read_row(row)
 
-<#if needsRowConversion>
         def _read_row(self, row: typing.Tuple) -> '${name}.${rowAnnotationName}':
             i = 0
     <#list fields as field>
@@ -122,7 +110,6 @@ class ${name}:
     </#list>
             return (<#list fields as field>${field.snakeCaseName}_<#if field?index == 0 || field?has_next>, </#if></#list>)
 
-</#if>
 <#if needsParameterProvider>
     <#macro parameter_provider_method_name parameter>
         ${parameter.expression}<#t>
@@ -308,7 +295,7 @@ class ${name}:
 
         try:
             for row in rows:
-                cursor.execute(sql_query, <#if needsRowConversion>self._write_row(row, column_map)<#else>row</#if>)
+                cursor.execute(sql_query, self._write_row(row, column_map))
 
             if has_autocommit:
                 cursor.execute("COMMIT")
@@ -347,7 +334,7 @@ class ${name}:
         sql_query += where_condition
 
         cursor = self._connection.cursor()
-        cursor.execute(sql_query, <#if needsRowConversion>self._write_row(row, column_map)<#else>row</#if>)
+        cursor.execute(sql_query, self._write_row(row, column_map))
 </#if>
 
     def _create_column_mapping(self, columns: typing.List[str]) -> typing.List[bool]:
@@ -405,7 +392,6 @@ class ${name}:
     </#if>
 
         return sql_query
-    <#if needsRowConversion>
 
     @staticmethod
     def _write_row(row: '${name}.${rowAnnotationName}', column_map: typing.List[bool]) -> typing.List:
@@ -437,7 +423,6 @@ class ${name}:
 
         </#list>
         return row_in_list
-    </#if>
 </#if>
 
     class _ColumnFormat(Enum):
-- 
2.43.0


From d06a1e501b303fa7a416f26c289754c327dc86e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:17 +0000
Subject: [PATCH 38/59] fix: Python SQL columns of unsigned 64 bit types accept
 values above the signed range

---
 .../python/freemarker/SqlTable.py.ftl         | 21 ++++++++++---
 .../python/SqlTableEmitterTemplateData.java   | 30 +++++++++++++++++++
 2 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/compiler/extensions/python/freemarker/SqlTable.py.ftl b/compiler/extensions/python/freemarker/SqlTable.py.ftl
index afe018f..fb232d9 100644
--- a/compiler/extensions/python/freemarker/SqlTable.py.ftl
+++ b/compiler/extensions/python/freemarker/SqlTable.py.ftl
@@ -84,6 +84,11 @@ class ${name}:
     <#list fields as field>
             if self._column_map[${field?index}]:
                 ${field.snakeCaseName}_ = row[i]
+            <#if field.isUnsigned64Bit>
+                if ${field.snakeCaseName}_ is not None and ${field.snakeCaseName}_ < 0:
+                    # SQLite stores 64-bit unsigned values as signed ones
+                    ${field.snakeCaseName}_ += 1 << 64
+            </#if>
             <#if field.sqlTypeData.isBlob>
                 if ${field.snakeCaseName}_ is not None:
                     reader = zserio.BitStreamReader(${field.snakeCaseName}_)
@@ -393,6 +398,14 @@ class ${name}:
 
         return sql_query
 
+    <#macro write_integer_column field>
+            <#if field.isUnsigned64Bit>
+            if isinstance(${field.snakeCaseName}_, int) and ${field.snakeCaseName}_ >= 1 << 63:
+                # SQLite stores 64-bit unsigned values as signed ones
+                ${field.snakeCaseName}_ -= 1 << 64
+            </#if>
+            row_in_list.append(${field.snakeCaseName}_)
+    </#macro>
     @staticmethod
     def _write_row(row: '${name}.${rowAnnotationName}', column_map: typing.List[bool]) -> typing.List:
         <#--
@@ -414,11 +427,11 @@ class ${name}:
             <#elseif field.typeInfo.isEnum || field.typeInfo.isBitmask>
             ${field.snakeCaseName}_ = row[${field?index}]
             if isinstance(${field.snakeCaseName}_, ${field.typeInfo.typeFullName}):
-                row_in_list.append(${field.snakeCaseName}_.value)
-            else:
-                row_in_list.append(${field.snakeCaseName}_)
+                ${field.snakeCaseName}_ = ${field.snakeCaseName}_.value
+                <@write_integer_column field/>
             <#else>
-            row_in_list.append(row[${field?index}])
+            ${field.snakeCaseName}_ = row[${field?index}]
+            <@write_integer_column field/>
             </#if>
 
         </#list>
diff --git a/compiler/extensions/python/src/zserio/extension/python/SqlTableEmitterTemplateData.java b/compiler/extensions/python/src/zserio/extension/python/SqlTableEmitterTemplateData.java
index 2beca15..220b794 100644
--- a/compiler/extensions/python/src/zserio/extension/python/SqlTableEmitterTemplateData.java
+++ b/compiler/extensions/python/src/zserio/extension/python/SqlTableEmitterTemplateData.java
@@ -1,14 +1,18 @@
 package zserio.extension.python;
 
+import java.math.BigInteger;
 import java.util.ArrayList;
 import java.util.List;
 import java.util.SortedSet;
 import java.util.TreeSet;
 
+import zserio.ast.BitmaskType;
 import zserio.ast.DynamicBitFieldInstantiation;
+import zserio.ast.EnumType;
 import zserio.ast.Expression;
 import zserio.ast.Field;
 import zserio.ast.FixedSizeType;
+import zserio.ast.IntegerType;
 import zserio.ast.Parameter;
 import zserio.ast.ParameterizedTypeInstantiation;
 import zserio.ast.ParameterizedTypeInstantiation.InstantiatedParameter;
@@ -16,6 +20,7 @@ import zserio.ast.SqlConstraint;
 import zserio.ast.SqlTableType;
 import zserio.ast.TypeInstantiation;
 import zserio.ast.TypeReference;
+import zserio.ast.ZserioType;
 import zserio.extension.common.ExpressionFormatter;
 import zserio.extension.common.ZserioExtensionException;
 import zserio.extension.common.sql.SqlNativeTypeMapper;
@@ -192,6 +197,7 @@ public final class SqlTableEmitterTemplateData extends UserTypeTemplateData
                     : pythonExpressionFormatter.formatGetter(fieldSqlConstraint.getConstraintExpr());
 
             lambdaBitSize = createBitSize(fieldTypeInstantiation, pythonExpressionFormatter);
+            isUnsigned64Bit = isUnsigned64BitType(fieldTypeInstantiation);
             final SqlNativeTypeMapper sqlNativeTypeMapper = new SqlNativeTypeMapper();
             sqlTypeData = new SqlTypeTemplateData(sqlNativeTypeMapper, field);
 
@@ -218,6 +224,11 @@ public final class SqlTableEmitterTemplateData extends UserTypeTemplateData
             return typeInfo;
         }
 
+        public boolean getIsUnsigned64Bit()
+        {
+            return isUnsigned64Bit;
+        }
+
         public boolean getIsVirtual()
         {
             return isVirtual;
@@ -323,6 +334,24 @@ public final class SqlTableEmitterTemplateData extends UserTypeTemplateData
             private final String lambdaExpression;
         }
 
+        /** Returns true if the column can have values which do not fit into signed 64-bit SQLite integers. */
+        private static boolean isUnsigned64BitType(TypeInstantiation typeInstantiation)
+        {
+            TypeInstantiation integerInstantiation = typeInstantiation;
+            final ZserioType baseType = typeInstantiation.getBaseType();
+            if (baseType instanceof EnumType)
+                integerInstantiation = ((EnumType)baseType).getTypeInstantiation();
+            else if (baseType instanceof BitmaskType)
+                integerInstantiation = ((BitmaskType)baseType).getTypeInstantiation();
+
+            if (!(integerInstantiation.getBaseType() instanceof IntegerType))
+                return false;
+
+            final IntegerType integerType = (IntegerType)integerInstantiation.getBaseType();
+            return integerType.getUpperBound(integerInstantiation)
+                           .compareTo(BigInteger.valueOf(Long.MAX_VALUE)) > 0;
+        }
+
         private static String createBitSize(TypeInstantiation typeInstantiation,
                 ExpressionFormatter pythonSqlIndirectExpressionFormatter) throws ZserioExtensionException
         {
@@ -351,6 +380,7 @@ public final class SqlTableEmitterTemplateData extends UserTypeTemplateData
         private final List<ParameterTemplateData> parameters;
         private final String sqlConstraint;
         private final String lambdaBitSize;
+        private final boolean isUnsigned64Bit;
         private final SqlTypeTemplateData sqlTypeData;
         private final DocCommentsTemplateData docComments;
     }
-- 
2.43.0


From 63bd8970f28194d17af1688cd0baa36f8f2678da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:17 +0000
Subject: [PATCH 39/59] fix: C++ empty blobs are written as empty blobs instead
 of NULL

---
 compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
index 25031ec..8032502 100644
--- a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
+++ b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
@@ -777,7 +777,10 @@ void ${name}::writeRow(<#if needsParameterProvider>IParameterProvider& parameter
             ${types.bitBuffer.name} bitBuffer(blob.bitSizeOf(), get_allocator_ref());
             ::zserio::BitStreamWriter writer(bitBuffer);
             blob.write(writer);
-            result = sqlite3_bind_blob(&statement, index, bitBuffer.getBuffer(),
+            // buffer of an empty blob can be a null pointer which would be bound as NULL
+            const void* const blobData = (bitBuffer.getByteSize() > 0) ?
+                    static_cast<const void*>(bitBuffer.getBuffer()) : static_cast<const void*>("");
+            result = sqlite3_bind_blob(&statement, index, blobData,
                     static_cast<int>(bitBuffer.getByteSize()), SQLITE_TRANSIENT);
             <#elseif field.sqlTypeData.isInteger>
             const int64_t intValue = static_cast<int64_t>(row.${field.getterName}()<#if field.typeInfo.isBitmask>.getValue()</#if>);
-- 
2.43.0


From 6ae290ec25bba6ab58df837bc224115e6e47f2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:17 +0000
Subject: [PATCH 40/59] fix: C++ validation does not take an empty blob for
 NULL

---
 compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
index 8032502..6302389 100644
--- a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
+++ b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
@@ -562,12 +562,14 @@ bool ${name}::validateBlob${field.name?cap_first}(::zserio::IValidationObserver&
         sqlite3_stmt* statement, Row& row<#rt>
         <#lt><#if field.hasExplicitParameters>, IParameterProvider& parameterProvider</#if>, bool& continueValidation)
 {
-    const void* blobData = sqlite3_column_blob(statement, ${field?index});
-    if (blobData == nullptr)
+    if (sqlite3_column_type(statement, ${field?index}) == SQLITE_NULL)
     {
         return true;
     }
 
+    // note that the pointer is nullptr for blobs with zero length
+    const void* blobData = sqlite3_column_blob(statement, ${field?index});
+
     try
     {
         const int blobDataLength = sqlite3_column_bytes(statement, ${field?index});
-- 
2.43.0


From 8d56f33f21df373c179fb5b7b3b33d5d7ffe085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:17 +0000
Subject: [PATCH 41/59] fix: C++ validation reports rows with a NULL primary
 key instead of undefined behaviour

---
 compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
index 6302389..00c0bf3 100644
--- a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
+++ b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
@@ -730,7 +730,8 @@ bool ${name}::validateField${field.name?cap_first}(::zserio::IValidationObserver
     rowKeyValuesHolder.emplace_back("BLOB");
                     <#else>
     const unsigned char* strValue${field.name?cap_first} = sqlite3_column_text(statement, ${field?index});
-    rowKeyValuesHolder.emplace_back(reinterpret_cast<const char*>(strValue${field.name?cap_first}));
+    rowKeyValuesHolder.emplace_back(strValue${field.name?cap_first} != nullptr
+            ? reinterpret_cast<const char*>(strValue${field.name?cap_first}) : "NULL");
                     </#if>
                 </#if>
             </#list>
-- 
2.43.0


From 6d02621d5bec5a3abf11967e89d6280e23945f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:17 +0000
Subject: [PATCH 42/59] fix: Java does not check constraints of extended fields
 which are not present

---
 compiler/extensions/java/freemarker/CompoundField.inc.ftl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/java/freemarker/CompoundField.inc.ftl b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
index 7d8b696..1e21fe6 100644
--- a/compiler/extensions/java/freemarker/CompoundField.inc.ftl
+++ b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
@@ -255,7 +255,8 @@ ${I}<@compound_get_field field/>.write(out);
 <#macro compound_check_constraint_field field compoundName indent>
     <#local I>${""?left_pad(indent * 4)}</#local>
     <#if field.constraint??>
-${I}if (<#if field.optional??>${field.optional.isUsedIndicatorName}() && </#if>!(${field.constraint}))
+${I}if (<#if field.isExtended>${field.isPresentIndicatorName}() && </#if><#rt>
+            <#lt><#if field.optional??>${field.optional.isUsedIndicatorName}() && </#if>!(${field.constraint}))
 ${I}    throw new zserio.runtime.ConstraintError("Constraint violated at ${compoundName}.${field.name}!");
     </#if>
 </#macro>
-- 
2.43.0


From 57e64687d051ddc3f6aee1667aa30fdec77694a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:26 +0000
Subject: [PATCH 43/59] fix: C++ StringView find_last_of and find_last_not_of
 find nothing without a position

---
 compiler/extensions/cpp/runtime/src/zserio/StringView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/StringView.h b/compiler/extensions/cpp/runtime/src/zserio/StringView.h
index 8c28944..884f9d0 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/StringView.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/StringView.h
@@ -661,7 +661,7 @@ public:
             return npos;
         }
 
-        for (size_type idx = std::min(pos + 1, size()); idx > 0; --idx)
+        for (size_type idx = std::min(pos, size() - 1) + 1; idx > 0; --idx)
         {
             if (Traits::find(str.data(), str.size(), data()[idx - 1]) != nullptr)
             {
@@ -785,7 +785,7 @@ public:
             return npos;
         }
 
-        for (size_type idx = std::min(pos + 1, size()); idx > 0; --idx)
+        for (size_type idx = std::min(pos, size() - 1) + 1; idx > 0; --idx)
         {
             if (Traits::find(str.data(), str.size(), data()[idx - 1]) == nullptr)
             {
-- 
2.43.0


From 19ff5af6c9b234e50dd1a5c10982804790411527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:26 +0000
Subject: [PATCH 44/59] fix: C++ optional holders use destroyed objects when a
 part of their own value is assigned

---
 .../cpp/runtime/src/zserio/OptionalHolder.h       | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/OptionalHolder.h b/compiler/extensions/cpp/runtime/src/zserio/OptionalHolder.h
index 5cb8fa2..a51224e 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/OptionalHolder.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/OptionalHolder.h
@@ -515,7 +515,7 @@ private:
     template <typename U = T>
     void set(U&& val)
     {
-        reset();
+        // the old value must not be destroyed before the new one is created because val can be a part of it
         m_storage = zserio::allocate_unique<T, allocator_type>(get_allocator(), std::forward<U>(val));
     }
 
@@ -992,8 +992,17 @@ private:
     template <typename U = T>
     void set(U&& val)
     {
-        reset();
-        new (m_storage.getStorage()) T(std::forward<U>(val));
+        if (hasValue())
+        {
+            // the old value must not be destroyed before the new one is created because val can be a part of it
+            T newValue(std::forward<U>(val));
+            reset();
+            new (m_storage.getStorage()) T(std::move(newValue));
+        }
+        else
+        {
+            new (m_storage.getStorage()) T(std::forward<U>(val));
+        }
         m_hasValue = true;
     }
 
-- 
2.43.0


From 7e5ee734d9dc02db7b35b6ec79e5d0e8a50b148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:26 +0000
Subject: [PATCH 45/59] fix: C++ AnyHolder uses destroyed objects when set to a
 part of its value, leaks or is corrupted by failing copies

---
 .../cpp/runtime/src/zserio/AnyHolder.h        | 128 +++++++++++++++---
 1 file changed, 110 insertions(+), 18 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/AnyHolder.h b/compiler/extensions/cpp/runtime/src/zserio/AnyHolder.h
index 723c423..519c1b6 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/AnyHolder.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/AnyHolder.h
@@ -166,14 +166,30 @@ public:
     IHolder<ALLOC>* clone(const ALLOC& allocator) const override
     {
         this_type* holder = create(allocator);
-        holder->setHolder(this->getHolder());
+        try
+        {
+            holder->setHolder(this->getHolder());
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
         return holder;
     }
 
     IHolder<ALLOC>* clone(NoInitT, const ALLOC& allocator) const override
     {
         this_type* holder = create(allocator);
-        holder->setHolder(NoInit, this->getHolder());
+        try
+        {
+            holder->setHolder(NoInit, this->getHolder());
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
         return holder;
     }
 
@@ -190,14 +206,30 @@ public:
     IHolder<ALLOC>* move(const ALLOC& allocator) override
     {
         this_type* holder = create(allocator);
-        holder->setHolder(std::move(this->getHolder()));
+        try
+        {
+            holder->setHolder(std::move(this->getHolder()));
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
         return holder;
     }
 
     IHolder<ALLOC>* move(NoInitT, const ALLOC& allocator) override
     {
         this_type* holder = create(allocator);
-        holder->setHolder(NoInit, std::move(this->getHolder()));
+        try
+        {
+            holder->setHolder(NoInit, std::move(this->getHolder()));
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
         return holder;
     }
 
@@ -595,7 +627,29 @@ public:
     template <typename T>
     void set(T&& value)
     {
-        createHolder<typename std::decay<T>::type>()->set(std::forward<T>(value));
+        using ValueType = typename std::decay<T>::type;
+
+        if (isType<ValueType>())
+        {
+            try
+            {
+                getHolder<ValueType>(detail::has_non_heap_holder<ValueType, ALLOC>())
+                        ->set(std::forward<T>(value));
+            }
+            catch (...)
+            {
+                clearHolder(); // the holder doesn't have to have any value now
+                throw;
+            }
+        }
+        else
+        {
+            // the old value must not be destroyed before the new one is created because value can be a part of it
+            AnyHolder newHolder(get_allocator_ref());
+            newHolder.createHolder<ValueType>(std::forward<T>(value));
+            clearHolder();
+            move(std::move(newHolder));
+        }
     }
 
     /**
@@ -606,7 +660,29 @@ public:
     template <typename T>
     void set(NoInitT, T&& value)
     {
-        createHolder<typename std::decay<T>::type>()->set(NoInit, std::forward<T>(value));
+        using ValueType = typename std::decay<T>::type;
+
+        if (isType<ValueType>())
+        {
+            try
+            {
+                getHolder<ValueType>(detail::has_non_heap_holder<ValueType, ALLOC>())
+                        ->set(NoInit, std::forward<T>(value));
+            }
+            catch (...)
+            {
+                clearHolder(); // the holder doesn't have to have any value now
+                throw;
+            }
+        }
+        else
+        {
+            // the old value must not be destroyed before the new one is created because value can be a part of it
+            AnyHolder newHolder(get_allocator_ref());
+            newHolder.createHolder<ValueType>(NoInit, std::forward<T>(value));
+            clearHolder();
+            move(NoInit, std::move(newHolder));
+        }
     }
 
     /**
@@ -663,7 +739,15 @@ private:
     {
         if (other.m_isInPlace)
         {
-            other.getUntypedHolder()->clone(&m_untypedHolder.inPlace);
+            try
+            {
+                other.getUntypedHolder()->clone(&m_untypedHolder.inPlace);
+            }
+            catch (...)
+            {
+                m_untypedHolder.heap = nullptr; // there is no holder in the in-place storage
+                throw;
+            }
             m_isInPlace = true;
         }
         else if (other.m_untypedHolder.heap != nullptr)
@@ -680,7 +764,15 @@ private:
     {
         if (other.m_isInPlace)
         {
-            other.getUntypedHolder()->clone(NoInit, &m_untypedHolder.inPlace);
+            try
+            {
+                other.getUntypedHolder()->clone(NoInit, &m_untypedHolder.inPlace);
+            }
+            catch (...)
+            {
+                m_untypedHolder.heap = nullptr; // there is no holder in the in-place storage
+                throw;
+            }
             m_isInPlace = true;
         }
         else if (other.m_untypedHolder.heap != nullptr)
@@ -766,20 +858,20 @@ private:
         return (m_isInPlace || m_untypedHolder.heap != nullptr);
     }
 
-    template <typename T>
-    detail::HolderBase<T, ALLOC>* createHolder()
+    template <typename T, typename... U>
+    void createHolder(U&&... value)
     {
-        if (hasHolder())
+        detail::HolderBase<T, ALLOC>* const holder =
+                createHolderImpl<T>(detail::has_non_heap_holder<T, ALLOC>());
+        try
+        {
+            holder->set(std::forward<U>(value)...);
+        }
+        catch (...)
         {
-            if (getUntypedHolder()->isType(detail::TypeIdHolder::get<T>()))
-            {
-                return getHolder<T>(detail::has_non_heap_holder<T, ALLOC>());
-            }
-
             clearHolder();
+            throw;
         }
-
-        return createHolderImpl<T>(detail::has_non_heap_holder<T, ALLOC>());
     }
 
     template <typename T>
-- 
2.43.0


From de2229ceffa889a00e1df8bb05906e37bbd722c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:09 +0000
Subject: [PATCH 46/59] fix: align(0) and alignments that are no integers were
 accepted

---
 compiler/core/src/zserio/ast/Field.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/core/src/zserio/ast/Field.java b/compiler/core/src/zserio/ast/Field.java
index 7951328..f977365 100644
--- a/compiler/core/src/zserio/ast/Field.java
+++ b/compiler/core/src/zserio/ast/Field.java
@@ -278,7 +278,8 @@ public final class Field extends DocumentableAstNode implements ScopeSymbol
         if (alignmentExpr != null)
         {
             final BigInteger alignmentValue = alignmentExpr.getIntegerValue();
-            if (alignmentValue == null || alignmentValue.compareTo(BigInteger.ZERO) < 0)
+            if (alignmentExpr.getExprType() != Expression.ExpressionType.INTEGER || alignmentValue == null ||
+                    alignmentValue.signum() <= 0)
                 throw new ParserException(alignmentExpr,
                         "Alignment expression for field '" + getName() + "' is not positive integer!");
             if (alignmentValue.compareTo(BigInteger.valueOf(Integer.MAX_VALUE)) > 0)
-- 
2.43.0


From 109df1ee1c786cf8190445856cf8ed169eb330fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:09 +0000
Subject: [PATCH 47/59] fix: services and pubsubs were accepted as types of
 fields, parameters and subtypes

---
 compiler/core/src/zserio/ast/TypeReference.java | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/compiler/core/src/zserio/ast/TypeReference.java b/compiler/core/src/zserio/ast/TypeReference.java
index 833dfc8..13439de 100644
--- a/compiler/core/src/zserio/ast/TypeReference.java
+++ b/compiler/core/src/zserio/ast/TypeReference.java
@@ -157,6 +157,14 @@ public final class TypeReference extends AstNodeBase
             throw new ParserException(
                     this, "Invalid usage of SQL database '" + symbol.getName() + "' as a type!");
         }
+        if (symbol instanceof ServiceType)
+        {
+            throw new ParserException(this, "Invalid usage of service '" + symbol.getName() + "' as a type!");
+        }
+        if (symbol instanceof PubsubType)
+        {
+            throw new ParserException(this, "Invalid usage of pubsub '" + symbol.getName() + "' as a type!");
+        }
         if (symbol instanceof TemplatableType)
         {
             final TemplatableType template = (TemplatableType)symbol;
-- 
2.43.0


From a0fc1ac0a44cf44bf0cb912e04bb4d5302be1581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:09 +0000
Subject: [PATCH 48/59] fix: subtypes leading into a cycle they are no part of
 crashed the compiler

---
 compiler/core/src/zserio/ast/ZserioAstTypeResolver.java | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/compiler/core/src/zserio/ast/ZserioAstTypeResolver.java b/compiler/core/src/zserio/ast/ZserioAstTypeResolver.java
index 6d4e413..3388ea2 100644
--- a/compiler/core/src/zserio/ast/ZserioAstTypeResolver.java
+++ b/compiler/core/src/zserio/ast/ZserioAstTypeResolver.java
@@ -90,11 +90,12 @@ public final class ZserioAstTypeResolver extends ZserioAstWalker
 
     private <T extends ZserioType> void checkCycle(List<T> typesOnStack, T type, String typeName)
     {
-        if (!typesOnStack.isEmpty() && typesOnStack.get(0) == type)
+        final int firstIndex = typesOnStack.indexOf(type);
+        if (firstIndex != -1)
         {
             final ParserStackedException stackedException = new ParserStackedException(type.getLocation(),
                     "Cyclic dependency detected in " + typeName + " '" + type.getName() + "'!");
-            for (int i = 1; i < typesOnStack.size(); ++i)
+            for (int i = firstIndex + 1; i < typesOnStack.size(); ++i)
             {
                 final T typeOnStack = typesOnStack.get(i);
                 stackedException.pushMessage(typeOnStack.getLocation(),
-- 
2.43.0


From d568c908a1ca86739eff55a125fd4fb10197fbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:57 +0000
Subject: [PATCH 49/59] fix: hexadecimal and unicode escapes in string literals
 were converted wrongly for C++ and Java

---
 .../common/StringEscapeConverter.java         | 137 +++++++++++-------
 1 file changed, 87 insertions(+), 50 deletions(-)

diff --git a/compiler/core/src/zserio/extension/common/StringEscapeConverter.java b/compiler/core/src/zserio/extension/common/StringEscapeConverter.java
index d21701a..e9c8a75 100644
--- a/compiler/core/src/zserio/extension/common/StringEscapeConverter.java
+++ b/compiler/core/src/zserio/extension/common/StringEscapeConverter.java
@@ -11,7 +11,11 @@ public final class StringEscapeConverter
     /**
      * Converts unicode escape sequences to hexadecimal in given string.
      *
-     * Only unicode escape sequences from interval &lt;'\u0000', '\u00FF'&gt; are converted.
+     * Only unicode escape sequences from interval &lt;'\u0000', '\u007F'&gt; are converted. The others are
+     * encoded by C++ compiler.
+     *
+     * A hexadecimal escape sequence followed by a hexadecimal digit is separated from this digit by splitting of
+     * the literal, because C++ does not limit number of digits. Trigraphs are broken by an escape sequence.
      *
      * @param stringToConvert String for escape sequences conversion.
      *
@@ -24,34 +28,29 @@ public final class StringEscapeConverter
         int index = 0;
         while (index < endIndex)
         {
-            final char character = stringToConvert.charAt(index);
-            int newIndex = index + 1;
-            buffer.append(character);
-            if (character == STRING_ESCAPE_CHARACTER && newIndex + ESCAPE_UNICODE_LENGTH < endIndex)
+            final int escapeLength = getEscapeLength(stringToConvert, index);
+            final String escape = stringToConvert.substring(index, index + escapeLength);
+            index += escapeLength;
+
+            final int escapeValue = getEscapeValue(escape);
+            final boolean isHexadecimal = escapeLength == ESCAPE_HEXADECIMAL_LENGTH;
+            if (isHexadecimal || (escapeValue >= 0 && escapeValue <= MAX_ASCII_CHARACTER))
             {
-                final char escapeSpecifier = stringToConvert.charAt(newIndex);
-                if (escapeSpecifier == STRING_ESCAPE_CHARACTER)
-                {
-                    buffer.append(STRING_ESCAPE_CHARACTER);
-                    newIndex++;
-                }
-                else if (escapeSpecifier == ESCAPE_UNICODE_SPECIFIER)
-                {
-                    final char firstUnicodeChar = stringToConvert.charAt(newIndex + 1);
-                    final char secondUnicodeChar = stringToConvert.charAt(newIndex + 2);
-                    if (firstUnicodeChar == '0' && secondUnicodeChar == '0')
-                    {
-                        final char thirdUnicodeChar = stringToConvert.charAt(newIndex + 3);
-                        final char fourthUnicodeChar = stringToConvert.charAt(newIndex + 4);
-                        buffer.append(ESCAPE_HEXADECIMAL_SPECIFIER);
-                        buffer.append(thirdUnicodeChar);
-                        buffer.append(fourthUnicodeChar);
-                        newIndex += ESCAPE_UNICODE_LENGTH;
-                    }
-                }
+                buffer.append(STRING_ESCAPE_CHARACTER);
+                buffer.append(ESCAPE_HEXADECIMAL_SPECIFIER);
+                buffer.append(escape.substring(escapeLength - 2));
+                if (index < endIndex && Character.digit(stringToConvert.charAt(index), 16) >= 0)
+                    buffer.append("\"\"");
+            }
+            else if (escape.equals("?") && buffer.length() > 0 && buffer.charAt(buffer.length() - 1) == '?')
+            {
+                buffer.append(STRING_ESCAPE_CHARACTER);
+                buffer.append(escape);
+            }
+            else
+            {
+                buffer.append(escape);
             }
-
-            index = newIndex;
         }
 
         return buffer.toString();
@@ -60,6 +59,9 @@ public final class StringEscapeConverter
     /**
      * Converts hexadecimal escape sequences to unicode in given string.
      *
+     * Characters which cannot be written as unicode escape sequences in Java are converted to the simple escape
+     * sequences.
+     *
      * @param stringToConvert String for escape sequences conversion.
      *
      * @return String with converted escape sequences.
@@ -71,39 +73,74 @@ public final class StringEscapeConverter
         int index = 0;
         while (index < endIndex)
         {
-            final char character = stringToConvert.charAt(index);
-            int newIndex = index + 1;
-            buffer.append(character);
-            if (character == STRING_ESCAPE_CHARACTER && newIndex + ESCAPE_HEXADECIMAL_LENGTH < endIndex)
+            final int escapeLength = getEscapeLength(stringToConvert, index);
+            final String escape = stringToConvert.substring(index, index + escapeLength);
+            index += escapeLength;
+
+            switch (getEscapeValue(escape))
             {
-                final char escapeSpecifier = stringToConvert.charAt(newIndex);
-                if (escapeSpecifier == STRING_ESCAPE_CHARACTER)
-                {
-                    buffer.append(STRING_ESCAPE_CHARACTER);
-                    newIndex++;
-                }
-                else if (escapeSpecifier == ESCAPE_HEXADECIMAL_SPECIFIER)
-                {
-                    final char firstHexChar = stringToConvert.charAt(newIndex + 1);
-                    final char secondHexChar = stringToConvert.charAt(newIndex + 2);
-                    buffer.append(ESCAPE_UNICODE_SPECIFIER);
+            case NOT_NUMERIC_ESCAPE:
+                buffer.append(escape);
+                break;
+
+            case '\n':
+                buffer.append("\\n");
+                break;
+
+            case '\r':
+                buffer.append("\\r");
+                break;
+
+            case '"':
+                buffer.append("\\\"");
+                break;
+
+            case '\\':
+                buffer.append("\\\\");
+                break;
+
+            default:
+                buffer.append(STRING_ESCAPE_CHARACTER);
+                buffer.append(ESCAPE_UNICODE_SPECIFIER);
+                if (escapeLength == ESCAPE_HEXADECIMAL_LENGTH)
                     buffer.append("00");
-                    buffer.append(firstHexChar);
-                    buffer.append(secondHexChar);
-                    newIndex += ESCAPE_HEXADECIMAL_LENGTH;
-                }
+                buffer.append(escape.substring(2));
+                break;
             }
-
-            index = newIndex;
         }
 
         return buffer.toString();
     }
 
+    private static int getEscapeLength(String string, int index)
+    {
+        if (string.charAt(index) != STRING_ESCAPE_CHARACTER || index + 1 >= string.length())
+            return 1;
+
+        int escapeLength = 2;
+        if (string.charAt(index + 1) == ESCAPE_HEXADECIMAL_SPECIFIER)
+            escapeLength = ESCAPE_HEXADECIMAL_LENGTH;
+        else if (string.charAt(index + 1) == ESCAPE_UNICODE_SPECIFIER)
+            escapeLength = ESCAPE_UNICODE_LENGTH;
+
+        return Math.min(escapeLength, string.length() - index);
+    }
+
+    private static int getEscapeValue(String escape)
+    {
+        if (escape.length() != ESCAPE_HEXADECIMAL_LENGTH && escape.length() != ESCAPE_UNICODE_LENGTH)
+            return NOT_NUMERIC_ESCAPE;
+
+        return Integer.parseInt(escape.substring(2), 16);
+    }
+
     private static final char STRING_ESCAPE_CHARACTER = '\\';
     private static final char ESCAPE_HEXADECIMAL_SPECIFIER = 'x';
     private static final char ESCAPE_UNICODE_SPECIFIER = 'u';
 
-    private static final int ESCAPE_HEXADECIMAL_LENGTH = 3;
-    private static final int ESCAPE_UNICODE_LENGTH = 5;
+    private static final int ESCAPE_HEXADECIMAL_LENGTH = 4;
+    private static final int ESCAPE_UNICODE_LENGTH = 6;
+
+    private static final int NOT_NUMERIC_ESCAPE = -1;
+    private static final int MAX_ASCII_CHARACTER = 0x7F;
 }
-- 
2.43.0


From 795c61577a14d7b7ac129650972ab729cfa0947f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:57 +0000
Subject: [PATCH 50/59] fix: octal escapes in string literals had another value
 or did not compile in Java and Python

---
 compiler/core/src/zserio/ast/Expression.java  | 25 ++++++++++++++++++-
 ...JavaDefaultExpressionFormattingPolicy.java |  2 +-
 .../PythonExpressionFormattingPolicy.java     |  2 +-
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/compiler/core/src/zserio/ast/Expression.java b/compiler/core/src/zserio/ast/Expression.java
index 9eed87d..93478a2 100644
--- a/compiler/core/src/zserio/ast/Expression.java
+++ b/compiler/core/src/zserio/ast/Expression.java
@@ -8,6 +8,8 @@ import java.util.LinkedHashSet;
 import java.util.List;
 import java.util.Map;
 import java.util.Set;
+import java.util.regex.Matcher;
+import java.util.regex.Pattern;
 
 import zserio.antlr.ZserioParser;
 import zserio.ast.Scope.FoundSymbol;
@@ -686,7 +688,7 @@ public final class Expression extends AstNodeBase
 
             case ZserioParser.STRING_LITERAL: // literalExpression
                 expressionType = ExpressionType.STRING;
-                expressionStringValue = stripStringLiteral(getText());
+                expressionStringValue = convertOctalEscapes(stripStringLiteral(getText()));
                 break;
 
             case ZserioParser.FLOAT_LITERAL: // literalExpression
@@ -1948,6 +1950,24 @@ public final class Expression extends AstNodeBase
         return (postfixPos == -1) ? strippedStringLiteral : strippedStringLiteral.substring(0, postfixPos);
     }
 
+    private static String convertOctalEscapes(String string)
+    {
+        // octal escapes are neither limited to three digits nor separable from the following digits, use hexadecimal
+        final StringBuilder buffer = new StringBuilder();
+        final Matcher matcher = STRING_ESCAPE_PATTERN.matcher(string);
+        int index = 0;
+        while (matcher.find())
+        {
+            buffer.append(string, index, matcher.start());
+            buffer.append(matcher.group(1) == null
+                            ? matcher.group()
+                            : String.format("\\x%02x", Integer.parseInt(matcher.group(1), 8)));
+            index = matcher.end();
+        }
+
+        return buffer.append(string, index, string.length()).toString();
+    }
+
     private static int findChars(String text, char firstChar, char secondChar)
     {
         int pos = text.indexOf(firstChar);
@@ -1957,6 +1977,9 @@ public final class Expression extends AstNodeBase
         return pos;
     }
 
+    private static final Pattern STRING_ESCAPE_PATTERN =
+            Pattern.compile("\\\\(?:0([0-3][0-7]{2}|[0-7]{1,2})|u\\p{XDigit}{4}|x\\p{XDigit}{2}|.)");
+
     private final Package pkg;
 
     private final int type;
diff --git a/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java b/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
index a751734..414d5ae 100644
--- a/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
+++ b/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
@@ -140,7 +140,7 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
     public String getStringLiteral(Expression expr)
     {
         // string literals in Java does not support hexadecimal escapes
-        return StringEscapeConverter.convertHexToUnicodeToEscapes(expr.getText());
+        return "\"" + StringEscapeConverter.convertHexToUnicodeToEscapes(expr.getStringValue()) + "\"";
     }
 
     @Override
diff --git a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
index cefb3c8..b9155d7 100644
--- a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
+++ b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
@@ -100,7 +100,7 @@ class PythonExpressionFormattingPolicy implements ExpressionFormattingPolicy
     public String getStringLiteral(Expression expr)
     {
         // string literals supports both unicode ('\u0000') and hexadecimal ('\x42') escapes
-        return expr.getText();
+        return "\"" + expr.getStringValue() + "\"";
     }
 
     @Override
-- 
2.43.0


From 23b592260ae36a2a6ffaf764d2bd77734f76638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:57 +0000
Subject: [PATCH 51/59] fix: lengthof string literals counted the text of
 escape sequences

---
 compiler/core/src/zserio/ast/Expression.java | 22 +++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/compiler/core/src/zserio/ast/Expression.java b/compiler/core/src/zserio/ast/Expression.java
index 93478a2..832bcb0 100644
--- a/compiler/core/src/zserio/ast/Expression.java
+++ b/compiler/core/src/zserio/ast/Expression.java
@@ -1273,7 +1273,7 @@ public final class Expression extends AstNodeBase
             if (operand1.expressionStringValue != null)
             {
                 expressionIntegerValue = new ExpressionIntegerValue(BigInteger.valueOf(
-                        operand1.expressionStringValue.getBytes(StandardCharsets.UTF_8).length));
+                        unescapeString(operand1.expressionStringValue).getBytes(StandardCharsets.UTF_8).length));
             }
             else
             {
@@ -1968,6 +1968,26 @@ public final class Expression extends AstNodeBase
         return buffer.append(string, index, string.length()).toString();
     }
 
+    private static String unescapeString(String string)
+    {
+        final StringBuilder buffer = new StringBuilder();
+        final Matcher matcher = STRING_ESCAPE_PATTERN.matcher(string);
+        int index = 0;
+        while (matcher.find())
+        {
+            buffer.append(string, index, matcher.start());
+            final String escape = matcher.group();
+            final char specifier = escape.charAt(1);
+            if (specifier == 'u' || specifier == 'x')
+                buffer.append((char)Integer.parseInt(escape.substring(2), 16));
+            else
+                buffer.append(specifier); // any character which needs one byte
+            index = matcher.end();
+        }
+
+        return buffer.append(string, index, string.length()).toString();
+    }
+
     private static int findChars(String text, char firstChar, char secondChar)
     {
         int pos = text.indexOf(firstChar);
-- 
2.43.0


From 20951bedd2a4c51a4a6dd149f33b5d501aea5c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:57 +0000
Subject: [PATCH 52/59] fix: Java INT64_MIN written in hexadecimal, octal or
 binary notation did not compile

---
 ...JavaDefaultExpressionFormattingPolicy.java | 32 +++++++++++--------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java b/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
index 414d5ae..5c228c7 100644
--- a/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
+++ b/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
@@ -42,8 +42,7 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
     public String getDecimalLiteral(Expression expr, boolean isNegative)
     {
         String decLiteral = expr.getText();
-        // special work around for INT64_MIN, this value is not mapped to BigInteger
-        if (expr.needsBigInteger() && (!isNegative || !decLiteral.equals(DECIMAL_LITERAL_ABS_INT64_MIN)))
+        if (needsBigIntegerLiteral(expr, new BigInteger(decLiteral), isNegative))
         {
             // special handling for uint64 type
             decLiteral = getBigIntegerLiteral(decLiteral);
@@ -63,7 +62,8 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
         String binaryLiteral = expr.getText();
         if (!binaryLiteral.isEmpty())
         {
-            if (expr.needsBigInteger())
+            final BigInteger binaryInBigInteger = new BigInteger(binaryLiteral, 2);
+            if (needsBigIntegerLiteral(expr, binaryInBigInteger, isNegative))
             {
                 // special handling for uint64 type
                 binaryLiteral = getBigIntegerLiteral(binaryLiteral, 2);
@@ -71,7 +71,6 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
             else
             {
                 // binary literals are in Java only from version 1.7 => use hexadecimal instead of it
-                final BigInteger binaryInBigInteger = new BigInteger(binaryLiteral, 2);
                 binaryLiteral = JAVA_HEXADECIMAL_LITERAL_PREFIX + binaryInBigInteger.toString(16) +
                         getIntegerLiteralSuffix(binaryInBigInteger, isNegative);
             }
@@ -84,14 +83,14 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
     public String getHexadecimalLiteral(Expression expr, boolean isNegative)
     {
         // hexadecimal literals in Java are the same (with prefix "0x") but append "L" for long values
-        if (expr.needsBigInteger())
+        String hexLiteral = expr.getText();
+        final BigInteger hexInBigInteger = new BigInteger(hexLiteral, 16);
+        if (needsBigIntegerLiteral(expr, hexInBigInteger, isNegative))
         {
             // special handling for uint64 type
-            return getBigIntegerLiteral(expr.getText(), 16);
+            return getBigIntegerLiteral(hexLiteral, 16);
         }
 
-        String hexLiteral = expr.getText();
-        final BigInteger hexInBigInteger = new BigInteger(hexLiteral, 16);
         hexLiteral = JAVA_HEXADECIMAL_LITERAL_PREFIX + hexLiteral +
                 getIntegerLiteralSuffix(hexInBigInteger, isNegative);
 
@@ -102,15 +101,14 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
     public String getOctalLiteral(Expression expr, boolean isNegative)
     {
         // octal literals in Java are the same (with prefix '0') but append "L" for long values
-        if (expr.needsBigInteger())
+        final String octalLiteral = expr.getText();
+        final BigInteger octalInBigInteger = new BigInteger(octalLiteral, 8);
+        if (needsBigIntegerLiteral(expr, octalInBigInteger, isNegative))
         {
             // special handling for uint64 type
-            return getBigIntegerLiteral(expr.getText(), 8);
+            return getBigIntegerLiteral(octalLiteral, 8);
         }
 
-        final String octalLiteral = expr.getText();
-        final BigInteger octalInBigInteger = new BigInteger(octalLiteral, 8);
-
         return JAVA_OCTAL_LITERAL_PREFIX + octalLiteral +
                 getIntegerLiteralSuffix(octalInBigInteger, isNegative);
     }
@@ -613,6 +611,12 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
         return (literalValue.compareTo(BigInteger.valueOf(maxAbsIntValue)) > 0) ? JAVA_LONG_LITERAL_SUFFIX : "";
     }
 
+    private boolean needsBigIntegerLiteral(Expression expr, BigInteger literalValue, boolean isNegative)
+    {
+        // special work around for INT64_MIN, this value is not mapped to BigInteger
+        return expr.needsBigInteger() && (!isNegative || !literalValue.equals(ABS_INT64_MIN));
+    }
+
     private String getBigIntegerLiteral(String value)
     {
         return getPreformattedBigIntegerValue(value) + ")";
@@ -636,7 +640,7 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
     private final static String JAVA_OCTAL_LITERAL_PREFIX = "0";
     private final static String JAVA_FLOAT_LITERAL_SUFFIX = "f";
 
-    private final static String DECIMAL_LITERAL_ABS_INT64_MIN = "9223372036854775808";
+    private final static BigInteger ABS_INT64_MIN = BigInteger.ONE.shiftLeft(63);
     private final static String BIG_INTEGER = "java.math.BigInteger";
 
     private final JavaNativeMapper javaNativeMapper;
-- 
2.43.0


From ea80855f5f56a19675a84c6a86b8e9ed4781c3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:57 +0000
Subject: [PATCH 53/59] fix: C++ negative binary and octal literals below
 INT32_MIN had a wrong value

---
 .../extension/cpp/CppExpressionFormattingPolicy.java     | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/compiler/extensions/cpp/src/zserio/extension/cpp/CppExpressionFormattingPolicy.java b/compiler/extensions/cpp/src/zserio/extension/cpp/CppExpressionFormattingPolicy.java
index 9b26290..8c7efb0 100644
--- a/compiler/extensions/cpp/src/zserio/extension/cpp/CppExpressionFormattingPolicy.java
+++ b/compiler/extensions/cpp/src/zserio/extension/cpp/CppExpressionFormattingPolicy.java
@@ -71,7 +71,8 @@ public class CppExpressionFormattingPolicy extends DefaultExpressionFormattingPo
         if (minIntWorkaround != null)
             return minIntWorkaround;
 
-        binaryLiteral = CPP_HEXADECIMAL_LITERAL_PREFIX + binaryInBigInteger.toString(16);
+        binaryLiteral = CPP_HEXADECIMAL_LITERAL_PREFIX + binaryInBigInteger.toString(16) +
+                getIntegerLiteralSuffix(binaryInBigInteger, isNegative);
 
         return binaryLiteral;
     }
@@ -104,8 +105,10 @@ public class CppExpressionFormattingPolicy extends DefaultExpressionFormattingPo
         if (minIntWorkaround != null)
             return minIntWorkaround;
 
-        // octal literals in C++ are the same (with prefix '0')
-        return CPP_OCTAL_LITERAL_PREFIX + expr.getText();
+        // octal literals in C++ are the same (with prefix '0') but append "(U)L(L)" for (unsigned) long (long)
+        // values
+        return CPP_OCTAL_LITERAL_PREFIX + expr.getText() +
+                getIntegerLiteralSuffix(octalInBigInteger, isNegative);
     }
 
     @Override
-- 
2.43.0


From 2fb32e0753e6b93cfa37d1eb54ac8153426ce215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:57 +0000
Subject: [PATCH 54/59] fix: Java constants and default values of types
 narrower than their expressions did not compile

---
 .../extensions/java/freemarker/Structure.java.ftl    |  3 +--
 .../extension/java/CompoundFieldTemplateData.java    | 12 ++++++++----
 .../extension/java/ConstEmitterTemplateData.java     |  6 +++++-
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/compiler/extensions/java/freemarker/Structure.java.ftl b/compiler/extensions/java/freemarker/Structure.java.ftl
index 7a53f56..6a18ec7 100644
--- a/compiler/extensions/java/freemarker/Structure.java.ftl
+++ b/compiler/extensions/java/freemarker/Structure.java.ftl
@@ -582,8 +582,7 @@ public class ${name} implements <#rt>
 <#list fieldList as field>
     private <@field_java_type_member_name field/> <@field_member_name field/><#rt>
     <#if field.initializer??>
-        <#assign longCast=field.typeInfo.isLong && !field.typeInfo.isSimple />
-        <#lt> = <#if longCast>(long)(</#if>${field.initializer}<#if longCast>)</#if><#rt>
+        <#lt> = ${field.initializer}<#rt>
     </#if>
     <#lt>;
 </#list>
diff --git a/compiler/extensions/java/src/zserio/extension/java/CompoundFieldTemplateData.java b/compiler/extensions/java/src/zserio/extension/java/CompoundFieldTemplateData.java
index ca15e04..975f6f4 100644
--- a/compiler/extensions/java/src/zserio/extension/java/CompoundFieldTemplateData.java
+++ b/compiler/extensions/java/src/zserio/extension/java/CompoundFieldTemplateData.java
@@ -59,7 +59,7 @@ public final class CompoundFieldTemplateData
                 fieldTypeInstantiation, isTypeNullable, javaExpressionFormatter);
 
         alignmentValue = createAlignmentValue(field, javaExpressionFormatter);
-        initializer = createInitializer(field, javaExpressionFormatter);
+        initializer = createInitializer(field, javaNativeMapper, javaExpressionFormatter);
 
         usesObjectChoice = (parentType instanceof ChoiceType) || (parentType instanceof UnionType);
 
@@ -524,14 +524,18 @@ public final class CompoundFieldTemplateData
         return new Optional(field, javaExpressionFormatter, javaLambdaExpressionFormatter, isRecursive);
     }
 
-    private static String createInitializer(Field field, ExpressionFormatter javaExpressionFormatter)
-            throws ZserioExtensionException
+    private static String createInitializer(Field field, JavaNativeMapper javaNativeMapper,
+            ExpressionFormatter javaExpressionFormatter) throws ZserioExtensionException
     {
         final Expression initializerExpression = field.getInitializerExpr();
         if (initializerExpression == null)
             return null;
 
-        return javaExpressionFormatter.formatGetter(initializerExpression);
+        // Java does not narrow expressions implicitly
+        final JavaNativeType nativeType = javaNativeMapper.getJavaType(field.getTypeInstantiation());
+        final String value = javaExpressionFormatter.formatGetter(initializerExpression);
+
+        return nativeType.isSimple() ? "(" + nativeType.getFullName() + ")(" + value + ")" : value;
     }
 
     private static String createAlignmentValue(Field field, ExpressionFormatter javaExpressionFormatter)
diff --git a/compiler/extensions/java/src/zserio/extension/java/ConstEmitterTemplateData.java b/compiler/extensions/java/src/zserio/extension/java/ConstEmitterTemplateData.java
index 37c5ffe..b521192 100644
--- a/compiler/extensions/java/src/zserio/extension/java/ConstEmitterTemplateData.java
+++ b/compiler/extensions/java/src/zserio/extension/java/ConstEmitterTemplateData.java
@@ -28,7 +28,11 @@ public final class ConstEmitterTemplateData extends JavaTemplateData
         final JavaNativeType nativeTargetType = javaNativeMapper.getJavaType(typeInstantiation);
         typeInfo = new NativeTypeInfoTemplateData(nativeTargetType, typeInstantiation);
 
-        value = javaExpressionFormatter.formatGetter(constant.getValueExpression());
+        // Java does not narrow expressions implicitly
+        final String valueExpression = javaExpressionFormatter.formatGetter(constant.getValueExpression());
+        value = nativeTargetType.isSimple()
+                ? "(" + nativeTargetType.getFullName() + ")(" + valueExpression + ")"
+                : valueExpression;
 
         docComments = DocCommentsDataCreator.createData(context, constant);
     }
-- 
2.43.0


From 3eaf0808a06089de2f46e197329ac01b1fc11160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:57 +0000
Subject: [PATCH 55/59] fix: C++ constants defined by numbits did not compile

---
 .../runtime/src/zserio/BuiltInOperators.cpp   | 28 -------------------
 .../cpp/runtime/src/zserio/BuiltInOperators.h |  6 +++-
 2 files changed, 5 insertions(+), 29 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/BuiltInOperators.cpp b/compiler/extensions/cpp/runtime/src/zserio/BuiltInOperators.cpp
index ef8f698..155dd7c 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/BuiltInOperators.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/BuiltInOperators.cpp
@@ -1,29 +1 @@
 #include "zserio/BuiltInOperators.h"
-
-namespace zserio
-{
-
-namespace builtin
-{
-
-uint8_t numBits(uint64_t numValues)
-{
-    if (numValues == 0)
-    {
-        return 0;
-    }
-
-    uint8_t result = 1;
-    uint64_t current = (numValues - 1U) >> 1U;
-    while (current > 0)
-    {
-        result++;
-        current >>= 1U;
-    }
-
-    return result;
-}
-
-} // namespace builtin
-
-} // namespace zserio
diff --git a/compiler/extensions/cpp/runtime/src/zserio/BuiltInOperators.h b/compiler/extensions/cpp/runtime/src/zserio/BuiltInOperators.h
index 8365891..b881583 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/BuiltInOperators.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/BuiltInOperators.h
@@ -45,7 +45,11 @@ bool isSet(BITMASK1 bitmaskValue, BITMASK2 requiredMask)
  *
  * \return Number of bis required to encode <tt>numValues</tt> different values.
  */
-uint8_t numBits(uint64_t numValues);
+constexpr uint8_t numBits(uint64_t numValues)
+{
+    return (numValues <= 2) ? static_cast<uint8_t>(numValues != 0 ? 1 : 0)
+                            : static_cast<uint8_t>(1 + numBits((numValues - 1) / 2 + 1));
+}
 
 } // namespace builtin
 
-- 
2.43.0


From f95b8f5f75eac8db9c612b5c4a86fa16b4a45a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:58 +0000
Subject: [PATCH 56/59] fix: C++ writeBufferToFile did not report failures of
 buffered writes

---
 compiler/extensions/cpp/runtime/src/zserio/FileUtil.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/FileUtil.cpp b/compiler/extensions/cpp/runtime/src/zserio/FileUtil.cpp
index 38e2aa1..19e3337 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/FileUtil.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/FileUtil.cpp
@@ -16,7 +16,8 @@ void writeBufferToFile(const uint8_t* buffer, size_t bitSize, BitsTag, const std
     }
 
     const size_t byteSize = (bitSize + 7) / 8;
-    if (!stream.write(reinterpret_cast<const char*>(buffer), static_cast<std::streamsize>(byteSize)))
+    if (!stream.write(reinterpret_cast<const char*>(buffer), static_cast<std::streamsize>(byteSize)) ||
+            !stream.flush())
     {
         throw CppRuntimeException("writeBufferToFile: Failed to write '") << fileName << "'!";
     }
-- 
2.43.0


From 95f3f9166a5c40f4ce213ba5e2d3788e6126fa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:58 +0000
Subject: [PATCH 57/59] fix: Java DebugStringUtil.fromJsonFile left the file
 open

---
 .../src/zserio/runtime/DebugStringUtil.java      | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/DebugStringUtil.java b/compiler/extensions/java/runtime/src/zserio/runtime/DebugStringUtil.java
index 8a2bdf0..d6e058d 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/DebugStringUtil.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/DebugStringUtil.java
@@ -474,9 +474,19 @@ public final class DebugStringUtil
     public static Object fromJsonFile(TypeInfo typeInfo, String fileName, Object... arguments)
             throws FileNotFoundException
     {
-        final InputStream inputStream = new FileInputStream(fileName);
-        final InputStreamReader reader = new InputStreamReader(inputStream, StandardCharsets.UTF_8);
-        return fromJsonStream(typeInfo, reader, arguments);
+        try (final InputStream inputStream = new FileInputStream(fileName);
+                final InputStreamReader reader = new InputStreamReader(inputStream, StandardCharsets.UTF_8))
+        {
+            return fromJsonStream(typeInfo, reader, arguments);
+        }
+        catch (FileNotFoundException exception)
+        {
+            throw exception;
+        }
+        catch (IOException exception)
+        {
+            throw new ZserioError("DebugStringUtil: " + exception, exception);
+        }
     }
 
     /**
-- 
2.43.0


From f00e3c44ebaf2ed69289c2b3559b94130b91635a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:58 +0000
Subject: [PATCH 58/59] fix: Java SerializeUtil.deserialize ignored the size of
 the bit buffer in bits

---
 .../src/zserio/runtime/io/SerializeUtil.java  | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/io/SerializeUtil.java b/compiler/extensions/java/runtime/src/zserio/runtime/io/SerializeUtil.java
index 78bd4c3..4c5f978 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/io/SerializeUtil.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/io/SerializeUtil.java
@@ -105,7 +105,14 @@ public final class SerializeUtil
      */
     public static <T> T deserialize(Class<T> clazz, BitBuffer bitBuffer, Object... arguments)
     {
-        return deserializeFromBytes(clazz, bitBuffer.getBuffer(), arguments);
+        try (final BitStreamReader reader = new ByteArrayBitStreamReader(bitBuffer))
+        {
+            return deserializeFromReader(clazz, reader, arguments);
+        }
+        catch (IOException exception)
+        {
+            throw new ZserioError("SerializeUtil: " + exception, exception);
+        }
     }
 
     /**
@@ -132,7 +139,15 @@ public final class SerializeUtil
     public static <T> T deserialize(Class<T> clazz, BitBuffer bitBuffer,
             PreallocatedArraySize maxPreallocatedArraySize, Object... arguments)
     {
-        return deserializeFromBytes(clazz, bitBuffer.getBuffer(), maxPreallocatedArraySize, arguments);
+        try (final BitStreamReader reader = new ByteArrayBitStreamReader(
+                     bitBuffer, maxPreallocatedArraySize.get()))
+        {
+            return deserializeFromReader(clazz, reader, arguments);
+        }
+        catch (IOException exception)
+        {
+            throw new ZserioError("SerializeUtil: " + exception, exception);
+        }
     }
 
     /**
-- 
2.43.0


From 0e0fac64d23fccd5c8577f15f3dfc3e861331e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:58 +0000
Subject: [PATCH 59/59] fix: Java SerializeUtil.PreallocatedArraySize could not
 be constructed

---
 .../java/runtime/src/zserio/runtime/io/SerializeUtil.java       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/io/SerializeUtil.java b/compiler/extensions/java/runtime/src/zserio/runtime/io/SerializeUtil.java
index 4c5f978..e578467 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/io/SerializeUtil.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/io/SerializeUtil.java
@@ -35,7 +35,7 @@ public final class SerializeUtil
          *
          * @param preallocatedArraySize The preallocated array size in the number of elements.
          */
-        PreallocatedArraySize(int preallocatedArraySize)
+        public PreallocatedArraySize(int preallocatedArraySize)
         {
             this.preallocatedArraySize = preallocatedArraySize;
         }
-- 
2.43.0


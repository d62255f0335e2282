TRUST = ("Trusts the reference model in mc/ref.py, written from doc/ZserioEncodingGuide.md and doc/ZserioLanguageOverview.md independently of "
         "the code; every explored model trace is replayed on the code built from the working tree and every observation compared. ")

prop("C01", "Bit streams keep every written value, bit for bit, at any position",
     "Whatever sequence of fixed-width, variable-length, boolean, floating-point, string, bytes and bit-buffer values is written to a bit stream starting at any bit position, the produced bits are exactly the documented big-endian encoding with no other bit touched, and reading them back with the same operations yields the same values and bit positions. Signed and unsigned ranges are covered up to their limits, and alignment only ever adds zero bits. The pure-Python runtime and the C++-accelerated runtime behave identically.",
     ["inputs", "histories"], "all operations x all boundary values x all start bit offsets, and all operation sequences to a depth",
     "Unit tests write a few chosen values at byte-aligned or few unaligned positions; correctness depends on the product of operation, width, value, bit offset and preceding operations.",
     [PRT + "bitwriter.py", PRT + "bitreader.py", PRT + "bitsizeof.py", PB, CRT + "BitStreamWriter.cpp", CRT + "BitStreamReader.cpp"],
     [("bit writer/reader primitives", PRT + "bitwriter.py, " + PRT + "bitreader.py"), ("C++ bit streams behind the binding", CRT + "BitStreamWriter.cpp, BitStreamReader.cpp")],
     "exhaustive exploration of bit-stream operation sequences against an explicit-state model, each trace replayed on the real runtimes",
     TRUST + "Bounds: widths 1..64, boundary values of each operation, prefixes 0..8 bits, sequences to depth 3 (quick) / 4 (thorough), windows around every varint length change.")

prop("C02", "Generated Python code encodes and decodes exactly the documented wire format",
     "For every schema construct and every value legal for it, serialization by generated Python code produces exactly the bits defined by the Zserio encoding guide, and deserializing those bits yields an equal value. This holds for every element type in every container (plain, optional, fixed, auto, implicit and packed arrays) and for their compositions into structures, choices, unions, parameterized and recursive types, with either Python runtime implementation.",
     ["programs", "inputs"], "all element types x all containers x boundary values, and compositions of them",
     "The test suite in this tree exercises the runtime classes; the templates, emitters and generated code are exercised for a handful of schemas, and round-trip tests cannot see symmetric encoding errors.",
     [PF, PX, PRT + "array.py", PRT + "serialization.py"],
     [("compound read/write templates", PF + "CompoundField.inc.ftl, Structure.py.ftl, Choice.py.ftl, Union.py.ftl"), ("array wrapper", PRT + "array.py")],
     "exhaustive enumeration of bounded schema families and values in a reference model; every model trace replayed on code generated from the working tree",
     TRUST + "Bounds: the schema families in mc/families.py, boundary values per type, arrays up to length 3.")

prop("C03", "Python serialization rejects every value outside its declared domain",
     "Serializing a Python object tree with a single value outside its schema domain raises a PythonRuntimeException (or, for wrong Python types, some error) and never silently writes something else: an integer outside the range of its fixed-width, bit-field or variable-length type, an array whose length differs from its length expression, a string or bytes with wrong type, a broken constraint, a wrong type argument, a choice or union with the wrong member set, a wrong offset. Direct bit stream writer calls with out-of-range values or invalid bit counts are rejected the same way, and a rejected stream write leaves the stream as it was.",
     ["inputs"], "every legal value of the schema families, changed at every single position to every out-of-domain neighbour",
     "Each rejection needs a specific field kind, container and position; the tests try a few illegal values on a few fields.",
     [PRT + "bitwriter.py", PRT + "array.py", PF + "CompoundField.inc.ftl", PF + "Choice.py.ftl", PF + "Union.py.ftl", PB],
     [("range checks of writer", PRT + "bitwriter.py"), ("constraint, length, type argument and offset checks", PF + "CompoundField.inc.ftl")],
     "exhaustive enumeration of single-position mutations of all model values; each mutated trace replayed on the real code and its rejection observed",
     TRUST + "Known finding: elements after the first one in Python packed arrays of fixed-size integers are not range checked (known_findings.txt).")

prop("C04", "Damaged Python input is rejected or decoded to a re-encodable value, never worse",
     "Decoding any bit string with generated Python code either fails with a PythonRuntimeException / end-of-stream error or gives a value whose fields are within their schema domains and which the encoding guide also decodes from these bits, consuming exactly the bits the guide says. This covers every truncation and single bit flip of valid encodings and all short bit strings: reads past the end are detected, unknown enum values, bitmask bits outside the definition, unknown choice and union tags, violated constraints, misplaced offsets and invalid variable-size numbers are reported.",
     ["inputs", "crash_points"], "all truncations and single flips of encodings of the schema families, all bit strings up to 9 (12) bits",
     "Tests decode valid streams; damaged ones are an exponential space of which the tests contain a handful.",
     [PRT + "bitreader.py", PRT + "array.py", PF + "CompoundField.inc.ftl", PF + "Union.py.ftl", PF + "Choice.py.ftl", PB],
     [("end of stream and varsize checks", PRT + "bitreader.py"), ("generated read methods", PF + "CompoundField.inc.ftl")],
     "exhaustive fault enumeration (every truncation, every flip, every short input), each decoded by a reference model and by the real code",
     TRUST + "Errors of ambiguous kind are compared as rejections only.")

prop("C05", "Predicted sizes and offsets equal what Python serialization really writes",
     "For every generated Python object and every stream start position, bitsizeof(start) is the exact number of bits that write() then produces from that position, initialize_offsets(start) returns the exact end position and sets every offset field to the byte position where the field it refers to really starts, and both do so again after the object is changed, re-initialized elsewhere or read from a stream: no state left over from earlier calls may influence a later size, offset or encoding.",
     ["inputs", "histories"], "all values of the schema families x start positions, and all short histories of initialize/replace/write on one object",
     "Size prediction and writing are separate code paths in templates and runtime; they must agree for every alignment, packing context and start position, and after every history.",
     [PF, PRT + "array.py", PRT + "bitsizeof.py", PRT + "bitposition.py", PRT + "deltacontext.py", PRT + "serialization.py"],
     [("bitsizeof / initialize_offsets templates", PF + "CompoundField.inc.ftl, Structure.py.ftl"), ("array bitsizeof", PRT + "array.py"), ("delta context sizing", PRT + "deltacontext.py")],
     "exhaustive enumeration of values, start positions and call histories, compared step by step with the reference model",
     TRUST + "Bounds: 9 start positions, histories of depth 2 (quick); 75 start positions, depth 3 for offset families (thorough).")

prop("C06", "Packed arrays are encoded with exactly the documented delta packing",
     "For every packable element type and every sequence of values, a packed array is written exactly as the encoding guide says: the packed flag is set precisely when delta packing pays off, max_bit_number is the number of bits of the largest absolute delta, the first element is written with its own encoding and each following one as a delta of max_bit_number + 1 bits; packed compounds use one context per field in definition order, and reading gives the original sequence back.",
     ["inputs", "histories"], "all sequences to length 4 over boundary alphabets of all packable types, all delta widths x lengths around the packing decision, nested packed compounds",
     "The context is a small state machine driven by the element sequence: its decisions depend on sequences and delta widths no test suite enumerates.",
     [PRT + "deltacontext.py", PRT + "array.py", PF + "CompoundField.inc.ftl"],
     [("DeltaContext", PRT + "deltacontext.py"), ("packed array methods", PRT + "array.py")],
     "exhaustive enumeration of element sequences against the state machine of the encoding guide, each trace replayed on the generated code",
     TRUST + "Packed arrays of only equal elements longer than 40 are out of bounds.")

prop("C07", "Expressions have Java semantics in the compiler and in generated Python code",
     "Every expression of a schema has, in generated Python code and in the compiler's own evaluation, the value given by the documented precedence table and Java semantics: integer division and modulo truncate towards zero, comparisons and negations nest as operands, numbits, lengthof (UTF-8 bytes for strings), valueof and isset follow their definitions, and the ternary operator selects only by its condition. This holds for every operand kind (fields, parameters, constants, array elements, function calls, enum items, bitmask values, literals in each base) and wherever the expression is used: functions, array and bit field lengths, optional conditions, constraints, choice selectors, type arguments, constants, enum and bitmask values and default values.",
     ["programs", "inputs"], "all well typed operator trees to a size x operand kinds x a grid of operand values x contexts of use",
     "Expressions are emitted token by token into another language with a different precedence table; only the space of nestings shows where that differs.",
     [PX + "PythonExpressionFormattingPolicy.java", CORE + "ast/Expression.java", CORE + "ast/ExpressionIntegerValue.java", CORE + "extension/common/ExpressionFormatter.java", PRT + "builtin.py"],
     [("Python expression emission", PX + "PythonExpressionFormattingPolicy.java"), ("compile-time evaluation", CORE + "ast/Expression.java, ExpressionIntegerValue.java")],
     "exhaustive enumeration of bounded expression trees and operand values, evaluated by a model and by the compiled schema",
     "Trusts the evaluator in mc/exprs.py. Bounds: all trees of 1-2 operators over 37 operator kinds, 3 operators over 20 (thorough: all 33321 trees). Evaluations that overflow int64/uint64, divide by zero or shift by a negative count are unspecified.")

prop("C09", "JSON export of Python objects is exact and imports back to an equal object",
     "For every generated Python object with type info, the JSON text equals the documented mapping (members in order, null for unset optionals, enums and bitmasks by name, bytes and bit buffers as their buffer/bitSize objects, escaped strings) for every indent setting, and importing it gives an equal object, whatever chunk sizes the text arrives in. Importing is independent of member order, leaves absent members at their defaults, accepts the documented alternative spellings of enums and bitmasks, and reports wrongly typed values as errors.",
     ["programs", "inputs"], "all values of the schema families, indent settings, stream chunk sizes and partial documents",
     "Unit tests use hand-written walker trees of one fixed type; the mapping depends on every type, container and value.",
     [PRT + "json.py", PRT + "serialization.py", PRT + "creator.py", PRT + "walker.py", PF + "TypeInfo.inc.ftl"],
     [("JsonWriter, JsonReader, JsonEncoder, JsonDecoder", PRT + "json.py"), ("ZserioTreeCreator", PRT + "creator.py")],
     "exhaustive enumeration of schema families and values; model-produced JSON compared with the code's and replayed back through the reader",
     TRUST + "Null for non-optional members is treated as unspecified.")

prop("C10", "The Python JSON parser accepts exactly its JSON grammar, with exact values",
     "Reading any text through the Python JsonParser/JsonTokenizer yields exactly the event sequence (begin/end object and array, keys, values with their types) of the JSON text, or an error if the text is not valid under the documented grammar (JSON plus NaN and Infinity literals); this is independent of how the text is split into read chunks. Numbers are decoded to integers when they have no fraction or exponent and to floats otherwise, strings with all their escapes, and errors are JsonParserException reports.",
     ["inputs", "histories"], "all words over token alphabets up to a bounded length, under several stream chunk sizes",
     "The space of texts times chunk boundaries is combinatorial; the tests hold a few dozen texts.",
     [PRT + "json.py"], [("JsonParser, JsonTokenizer, JsonDecoder", PRT + "json.py")],
     "exhaustive enumeration of all words over token alphabets and chunkings, compared with a reference recognizer",
     "Trusts the reference parser in mc/py_jparse.py. Unspecified: the \\/ escape and surrogate pair escapes.")

JX, JRT, CX, CRT = "compiler/extensions/java/", "compiler/extensions/java/runtime/src/zserio/runtime/", "compiler/extensions/cpp/", "compiler/extensions/cpp/runtime/src/zserio/"

prop("C23", "Generated Java code reads and writes exactly the documented encoding",
     "For every schema and value, generated Java classes read the documented encoding to the same value and consume exactly its bits, predict the same size with bitSizeOf and initializeOffsets, write the same bits back from any bit position, export the documented JSON text and import it to an equal object (equals, hashCode and serialization agree), refuse every value the schema forbids when writing, and on every truncated or damaged stream either give exactly the value the bits encode or throw an exception.",
     ["programs", "inputs", "faults"], "all values of the schema families x start positions; all truncations and single bit flips; all short bit strings; all single-field mutations",
     "Java code is generated from its own templates and runtime, with native types that cannot hold all values; the repository's own Java tests need junit jars and fixed values.",
     [JX + "freemarker/", JX + "src/zserio/extension/java/", JRT + "array/", JRT + "io/", JRT + "json/"],
     [("Java emitters and native types", JX + "src/zserio/extension/java/"), ("Java runtime: arrays, delta context, bit streams", JRT), ("Java type info, JSON and tree creator", JRT + "typeinfo, json, creator, walker")],
     "exhaustive enumeration of schema families, values, start positions, truncations and bit flips in the model; every trace replayed on the generated Java code",
     TRUST + "Values that need BigInteger below 0 or that native Java types cannot represent are not decided. JSON of float NaN payloads is compared as NaN.")

prop("C27", "Expressions have their documented values in generated Java and C++ code",
     "Every expression of a schema has, in generated Java and C++ code, the value the documented precedence table and integer semantics give it: all operators nested in every way, all operand kinds (fields of every integer type including uint64, parameters, constants, array elements, function calls, enum items, bitmask values, literals in every base and at the type limits), lengthof, valueof, numbits, isset and the ternary operator.",
     ["programs", "inputs"], "all well typed operator trees to a size x operand kinds x a grid of operand values, in both languages",
     "Each language emits expressions through its own formatting policy (BigInteger method calls in Java, casts and shift rewrites in C++); only the space of nestings and operand types shows where they differ.",
     [JX + "src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java", CX + "src/zserio/extension/cpp/CppExpressionFormattingPolicy.java", CORE + "extension/common/", CORE + "ast/Expression.java"],
     [("Java expression emission", JX + "src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java"), ("C++ expression emission", CX + "src/zserio/extension/cpp/CppExpressionFormattingPolicy.java"), ("built-in operators", JRT + "BuiltInOperators.java, " + CRT + "BuiltInOperators.h")],
     "exhaustive enumeration of bounded expression trees and operand values, evaluated by a model and by the generated code of both languages",
     "Trusts the evaluator in mc/exprs.py. Evaluations that overflow the native type of a subexpression, divide by zero, or shift out of range are unspecified. Java: uint64 mixed with native-only operand kinds does not compile (known findings).")

prop("C24", "Generated C++ code reads and writes exactly the documented encoding",
     "For every schema and value, generated C++ classes read the documented encoding to the same value and consume exactly its bits, predict the same size with bitSizeOf and initializeOffsets, write the same bits back from any bit position, export the documented JSON text and import it to an equal object, compare and hash copies, moved and allocator-propagated objects as equal, refuse every value the schema forbids when writing, and on every truncated or damaged stream either give exactly the value the bits encode or throw an exception, never touching memory outside of the given buffers.",
     ["programs", "inputs", "faults"], "all values of the schema families x start positions; all truncations and single bit flips; all short bit strings; all single-field mutations; part of it under the address and undefined behaviour sanitizers",
     "C++ code is generated from its own templates and runtime with native integer types and copy/move semantics; the repository's own C++ tests are not part of the Python test run.",
     [CX + "freemarker/", CX + "src/zserio/extension/cpp/", CRT],
     [("C++ emitters and native types", CX + "src/zserio/extension/cpp/"), ("C++ runtime: Array.h, ArrayTraits.h, DeltaContext.h, bit streams, holders", CRT), ("C++ reflection, JSON and tree creator", CRT + "Reflectable.h, JsonReader.h, JsonWriter.h, ZserioTreeCreator.h")],
     "exhaustive enumeration of schema families, values, start positions, truncations and bit flips in the model; every trace replayed on the generated C++ code",
     TRUST + "Values that native C++ types cannot represent are not decided; null for non-optional members is unspecified in C++. Quick: every fourth expression package, JSON for four families.")

prop("C26", "Range check code accepts exactly the values of each integer type",
     "With -withRangeCheckCode, generated Java setters and C++ code accept every value of an integer type (both bounds included) and reject every value outside of it, for every width and kind of integer (fixed, signed, variable, dynamic bit fields), in every position (plain, optional, array, union and choice members); the option changes nothing about what is read and written.",
     ["programs", "inputs"], "all integer types x positions x boundary values and out-of-range mutations, in Java and C++",
     "The bounds are computed by the compiler and emitted per type and position; only the space of types, positions and neighbours of bounds shows an off-by-one.",
     [JX + "src/zserio/extension/java/RangeCheckTemplateData.java", JX + "freemarker/RangeCheck.inc.ftl", CX + "src/zserio/extension/cpp/", CORE + "ast/FixedSizeType.java", CORE + "extension/common/"],
     [("Java range checks", JX + "src/zserio/extension/java/RangeCheckTemplateData.java"), ("C++ range checks", CX + "src/zserio/extension/cpp/CompoundFieldTemplateData.java"), ("bit field bounds at run time", JRT + "Util.java, " + CRT + "BitFieldUtil.cpp")],
     "exhaustive enumeration of integer types, positions and values around the bounds; each replayed on generated Java and C++ code",
     TRUST + "Java members mapped to BigInteger are only checked when written.")

prop("C28", "Java bit streams write and read exactly the documented bits",
     "For every sequence of write calls at any bit position, ByteArrayBitStreamWriter produces exactly the bits of the documented encodings (bit fields of every width with long and BigInteger calls, native integers, variable integers, floats, strings, bytes, bit buffers, alignment), BitSizeOfCalculator predicts the same sizes, ByteArrayBitStreamReader reads the same values back at the same positions, also after seeking; reads beyond the end of the stream fail, and refused values leave the stream unchanged.",
     ["inputs", "histories"], "all single calls with boundary values at every alignment; all call sequences to a depth; every position x width of a stream; every cut of every encoding",
     "Every width has its own alignment and carry cases; tests try a few widths and positions.",
     [JRT + "io/ByteArrayBitStreamWriter.java", JRT + "io/ByteArrayBitStreamReader.java", JRT + "io/BitBuffer.java", JRT + "BitSizeOfCalculator.java", JRT + "BitFieldUtil.java", JRT + "FloatUtil.java"],
     [("stream writer", JRT + "io/ByteArrayBitStreamWriter.java"), ("stream reader", JRT + "io/ByteArrayBitStreamReader.java"), ("size calculation", JRT + "BitSizeOfCalculator.java")],
     "exhaustive enumeration of calls, call sequences, positions and cuts in the stream model; every trace replayed on the Java streams",
     "Trusts the bit stream model in mc/stream_model.py. writeBigInteger takes every signed or unsigned value of its width. Seeking beyond the end is unspecified in Java; the next read must fail.")

prop("C29", "Java and C++ JSON parsers accept exactly JSON and keep every number",
     "For every text, in whatever pieces it is read, the Java and C++ JSON parsers report exactly the events, values and (line:column) error positions the JSON grammar gives it (plus NaN and infinities); every finite or infinite floating point number they write is read back as the same number.",
     ["inputs", "histories"], "all words over token alphabets to a length x all wraps x chunkings; all exponents and neighbours of decimal boundaries of doubles",
     "Tokenizer states at the end of a chunk and malformed texts are too many for examples; precision of numbers shows only near decimal boundaries.",
     [JRT + "json/JsonTokenizer.java", JRT + "json/JsonDecoder.java", JRT + "json/JsonParser.java", JRT + "json/JsonEncoder.java", CRT + "JsonTokenizer.h", CRT + "JsonDecoder.h", CRT + "JsonParser.h", CRT + "JsonEncoder.cpp"],
     [("tokenizers", JRT + "json/JsonTokenizer.java, " + CRT + "JsonTokenizer.h"), ("value decoders", JRT + "json/JsonDecoder.java, " + CRT + "JsonDecoder.h"), ("number encoders", JRT + "json/JsonEncoder.java, " + CRT + "JsonEncoder.cpp")],
     "exhaustive enumeration of all words over token alphabets and chunkings, compared with a reference recognizer",
     "Trusts the reference parser in mc/py_jparse.py. Unspecified: the \\/ escape, surrogate pair escapes, lenient number spellings, in C++ escapes above \\u007f and whether a begin event comes before an error in the next token.")

prop("C14", "Floating point numbers are kept or converted to the nearest value",
     "float16, float32 and float64 patterns are read as exactly the IEEE 754 number they encode and written back as the same pattern, in Python (both implementations), Java and C++; a number that float16 cannot hold is written as one of its two neighbours (the nearest one in the normal range, unless it is halfway), numbers too large for it become infinity of the same sign, and NaN stays NaN.",
     ["inputs"], "all 2^16 float16 patterns and all 2^32 float32 values in Java and C++; all patterns and points between them in Python",
     "The conversion is hand-written bit arithmetic with subnormal, rounding and overflow cases; tests try a dozen numbers.",
     [PRT + "float.py", JRT + "FloatUtil.java", CRT + "FloatUtil.cpp", PRT + "bitwriter.py"],
     [("Python conversion", PRT + "float.py"), ("Java conversion", JRT + "FloatUtil.java"), ("C++ conversion", CRT + "FloatUtil.cpp")],
     "exhaustive enumeration of all 16-bit and 32-bit floating point values on the real conversion functions, judged by a neighbour table of the format",
     "Trusts host IEEE 754 double arithmetic. Halfway cases and rounding to subnormal float16 values may go either way. Payloads of NaNs are unspecified.")

prop("C11", "Tree creators build exactly the tree the calls describe or refuse the call",
     "For every sequence of calls of a ZserioTreeCreator (Python, Java, C++), each call is accepted exactly when it is allowed in the state reached (nesting, field names, value types, array and compound elements); a refused call changes nothing; the tree returned by end root has exactly the members set, so it serializes to the bytes of that value, and the creator can then build another tree; type queries name the type of the member.",
     ["histories"], "all call sequences up to a number of accepted calls (4, 2 and 5 for three types), then every call in every state reached, then completion and a second tree",
     "The creator is a state machine with three stacks; whether a refused call leaves them intact depends on the history.",
     [PRT + "creator.py", JRT + "creator/ZserioTreeCreator.java", CRT + "ZserioTreeCreator.h", CRT + "Reflectable.h"],
     [("creator state and field stacks", PRT + "creator.py, " + JRT + "creator/ZserioTreeCreator.java, " + CRT + "ZserioTreeCreator.h"), ("generated setters and constructors used through reflection", PX + "freemarker/, " + JX + "freemarker/, " + CX + "freemarker/")],
     "explicit-state search of a creator model with every operation tried in every state; each trace replayed on the Python, Java and C++ creators",
     TRUST + "Unspecified: members used by arguments or conditions set late or twice, null for members that are not optional, beginning a compound again in C++; trees with members never set are not compared.")

prop("C12", "Walkers visit every node once in order, and filters skip what they say",
     "Walker reports each compound, array and value of an object exactly once, in schema order, with matching begin and end events, right indexes and values; filters decide as documented: depth, array length, regular expression over the path (an element, array or compound is entered when it or anything inside of it matches), conjunction; a filter refusing before skips that subtree only, one refusing after stops the siblings that follow, and observers always get balanced events.",
     ["inputs", "histories"], "values of five schema families x all depths, lengths, patterns for each path and pairs of filters, and every sequence of filter answers with at most two refusals; Python, Java and C++",
     "Filters keep state along the walk (path stack, depth); every refusal point is a history of its own.",
     [PRT + "walker.py", JRT + "walker/", CRT + "Walker.h"],
     [("walker recursion", PRT + "walker.py, " + JRT + "walker/Walker.java, " + CRT + "Walker.h"), ("filters with state", PRT + "walker.py, " + JRT + "walker/RegexWalkFilter.java, " + CRT + "Walker.h")],
     "exhaustive enumeration of trees, filters and answer sequences in a walker model; every event log compared with the Python, Java and C++ walkers",
     TRUST + "Python patterns match a prefix of the path, Java and C++ patterns all of it (as their documentation says). Objects whose optional members of extended structures are absent are left out.")

prop("C08", "Objects are equal exactly when their parameters and used contents are",
     "Two objects of a generated type compare equal exactly when they have the same parameters and the same values of all members in use, however they were built: by constructors and setters, read from a stream, imported from JSON, or with leftovers in members that are not used (unset optionals, unused bits of bit buffers). Equal objects have equal hash codes, which calling other methods does not change; the C++ operators < order objects by their members in schema order, unset optionals first, so that they are strict weak orders.",
     ["programs", "inputs"], "all pairs of values of each type of the schema families, built in every way, in Python, Java and C++",
     "Equality, hash code and order are generated member by member with a case for optionals, unions, choices, arrays and parameters; a wrong pair only shows when exactly that pair is compared.",
     [PX + "freemarker/", JX + "freemarker/CompoundEquals.inc.ftl", JX + "freemarker/", CX + "freemarker/CompoundField.inc.ftl", PRT + "hashcode.py", JRT + "HashCodeUtil.java", CRT + "HashCodeUtil.h", CRT + "OptionalHolder.h", CRT + "BitBuffer.h"],
     [("generated comparison and hash methods", PX + "freemarker/, " + JX + "freemarker/, " + CX + "freemarker/"), ("hash functions of the runtimes", PRT + "hashcode.py, " + JRT + "HashCodeUtil.java, " + CRT + "HashCodeUtil.h"), ("arrays, bit buffers and holders", PRT + "array.py, " + JRT + "array/RawArray.java, " + JRT + "io/BitBuffer.java, " + CRT + "BitBuffer.h, " + CRT + "OptionalHolder.h")],
     "exhaustive comparison of all pairs of model values and construction paths on the real Python, Java and C++ objects",
     TRUST + "NaN, presence of extended members in Java, and in C++ the order of choices with different alternatives and of bit buffers that differ only in length are unspecified.")

prop("C13", "Type information and reflection tell the truth about schema and object",
     "The type information of a generated type describes the schema exactly: kind and full name of the type, all fields, parameters, functions, cases with their labels and enumeration or bitmask items in schema order, with their types, values and every property (array kind, packed, extended, optional, alignment, offset, initial value, constraint, number of type arguments, deprecated, removed, underlying type, template and template arguments), finite also for recursive types. Everything in it that can be evaluated on an object (type arguments per element, array length, optional condition, constraint, offset, alignment, initial value, function, selector, accessor and indicator names; in C++ the values, parameters, functions, choices and paths reflection answers) gives what the expressions of the schema mean for that object.",
     ["programs", "inputs"], "all types of five schema families covering every construct, and all questions about every field, element, parameter, function and selector of every object, in Python, Java and C++",
     "Type information is generated by templates of its own, separate from the code that reads and writes; tools that inspect objects rely on it, and hardly any schema construct of it is touched by the tests.",
     [PF + "TypeInfo.inc.ftl", JX + "freemarker/TypeInfo.inc.ftl", CX + "freemarker/TypeInfo.inc.ftl", CX + "freemarker/Reflectable.inc.ftl", PRT + "typeinfo.py", JRT + "typeinfo/", CRT + "TypeInfo.h", CRT + "Reflectable.h", PX + "src/zserio/extension/python/", JX + "src/zserio/extension/java/", CX + "src/zserio/extension/cpp/"],
     [("templates of type information and reflection", PF + "TypeInfo.inc.ftl, " + JX + "freemarker/TypeInfo.inc.ftl, " + CX + "freemarker/TypeInfo.inc.ftl, " + CX + "freemarker/Reflectable.inc.ftl"), ("type information classes", PRT + "typeinfo.py, " + JRT + "typeinfo/TypeInfo.java, " + CRT + "TypeInfo.h"), ("reflectable objects", CRT + "Reflectable.h")],
     "exhaustive walk of the type graph and enumeration of all questions on all objects of the schema families in a model; each answer compared with the generated Python, Java and C++ code",
     TRUST + "Expressions are text in C++ type information: only their presence is compared. Which of two subtypes of the same type an instantiation of a template names is left open.")

prop("C20", "Constants, items and default values have the schema's values in generated code",
     "Every literal, in every notation the language allows (decimal, hexadecimal, octal, binary, signed; floating point with and without suffix; strings with all escape sequences, concatenated or not), has the documented value in generated Python, Java and C++ code - as a constant, a default value of a field, the result of a function, the operand of lengthof - and every explicit or implicit enumeration and bitmask item has its documented value. Generated code for such schemas compiles.",
     ["inputs", "programs"], "all integer types x all boundary values x all notations x places, all words of 2 (thorough: 3) of 70 string pieces, floating point forms x types, enumerations and bitmasks of every underlying type with explicit and implicit items",
     "The value of a literal goes through a formatter per language with special cases for sizes, signs and escapes; the stable tests sample one string and no generated constant.",
     ["compiler/core/antlr/ZserioLexer.g4", CORE + "ast/Expression.java", CORE + "ast/EnumType.java", CORE + "ast/BitmaskType.java", CORE + "extension/common/StringEscapeConverter.java", "compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java", "compiler/extensions/cpp/src/zserio/extension/cpp/CppExpressionFormattingPolicy.java", "compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java", "compiler/extensions/java/src/zserio/extension/java/types/", "compiler/extensions/cpp/src/zserio/extension/cpp/types/"],
     [("formatting of literals", "compiler/extensions/*/src/zserio/extension/*/*ExpressionFormattingPolicy.java, types/Native*Type.java"), ("escape sequences", CORE + "extension/common/StringEscapeConverter.java"), ("values of items", CORE + "ast/EnumType.java, " + CORE + "ast/BitmaskType.java")],
     "exhaustive enumeration of literals and places; values computed from the language overview, compared with those generated code of each language yields when it runs",
     "Trusts javac, g++ and CPython. Open: 8-bit escapes above 0x7f in C++ strings (bytes or characters), surrogates, rounding of single precision literals.")

prop("C21", "SQL tables store, find, change and give back rows, in all three languages",
     "For every history of schema creation and deletion, table creation and deletion, writes, updates, reads (of all or some columns, with a condition), transactions and reopening of a generated SQL database - with its tables spread over any files - every operation succeeds exactly when the schema's constraints allow it, a failed operation leaves the database and its transactions as they were, reads give exactly the rows and values written, and the files hold exactly the declared tables and columns with the values as documented SQL types and encoded blobs.",
     ["histories", "inputs"], "all values of all column types, all column subsets, all operation sequences of 20 operations to depth 3 (quick) / 4 (thorough) from three states, all distributions of the tables over files",
     "Generated SQL code binds columns by position, manages transactions by hand and depends on what happened before; no stable test runs a generated database.",
     [CX + "freemarker/SqlTable.cpp.ftl", CX + "freemarker/SqlDatabase.cpp.ftl", JX + "freemarker/SqlTable.java.ftl", JX + "freemarker/SqlDatabase.java.ftl", PX + "freemarker/SqlTable.py.ftl", PX + "freemarker/SqlDatabase.py.ftl", CRT + "SqliteConnection.h"],
     [("table and database templates", "freemarker/SqlTable.*.ftl, SqlDatabase.*.ftl"), ("SQL types and constraints of columns", CORE + "ast/SqlConstraint.java, " + JX + "SqlNativeTypeMapper.java"), ("C++ SQLite wrappers", CRT + "SqliteConnection.h, SqliteFinalizer.h")],
     "explicit-state exploration of operation histories on a relational model; each trace replayed on generated databases in all three languages and the files read back independently",
     TRUST + "Trusts SQLite itself (files are read back with the host's sqlite3). Excluded: NaN, -0.0 and NUL characters in texts, empty column lists, reading a parameterized blob without its parameter columns.")

prop("C30", "Validating a database reports exactly its deviations from the schema",
     "For every database whose columns or values were damaged, validation reports each deviating table, column and row with the documented kind of error and the row's key - missing and superfluous columns, wrong column types and constraints, values of the wrong type or out of range, invalid enum values, blobs that cannot be parsed or do not encode to the same bytes - and nothing for databases without a deviation; the numbers of validated tables and rows are exact, and an observer can stop it.",
     ["inputs", "histories"], "all single deviations of every column (quick), all pairs of them, every value class in every column, every truncation and bit flip of every stored blob",
     "Validation exists for inputs nobody wrote on purpose; stopping, several errors and empty or NULL values interact, and no stable test validates a database.",
     [CX + "freemarker/SqlTable.cpp.ftl", CX + "freemarker/SqlDatabase.cpp.ftl", JX + "freemarker/SqlTable.java.ftl", CRT + "ValidationSqliteUtil.h", JRT + "validation/ValidationReport.java"],
     [("generated validation", "freemarker/SqlTable.*.ftl"), ("schema inspection", CRT + "ValidationSqliteUtil.h, " + JRT + "validation/ValidationSqliteUtil.java")],
     "exhaustive enumeration of single and paired deviations of bounded databases; the model's expected reports compared with the reports of the real validation",
     TRUST + "Trusts SQLite. Open: whether bytes after a blob deviate in C++, how keys of a wrong type are shown. Python has no validation.")

prop("C15", "Helpers for buffers, files and debug strings store and load exactly the object",
     "For every object, the serialization helpers (to and from bit buffers, bytes, files) and the debug string helpers (to and from JSON strings, streams, files; with indents and filters; given a class or type information) of all three languages produce exactly the object's encoding or JSON text and load exactly the object back. Whatever was done with a file before, a writing helper replaces its contents, completely or with a reported failure; a loading helper depends on its contents alone (missing, empty, truncated to any bit, of another kind, a directory) and refuses what is no encoding; a full device is reported; no helper leaves the file open.",
     ["histories", "inputs", "faults"], "objects of 4 kinds of types x every truncation (bits and bytes) x helpers and their overloads; every history of 3 (thorough also 4) writing helpers, foreign contents and removals over one file, all reading helpers tried after each step; missing directories, directories and a full device as targets",
     "The stable tests call each helper once with one object over new files; they cannot see stale contents, data cut inside the last byte, unreported write failures or open files.",
     [PRT + "serialization.py", PRT + "debugstring.py", JRT + "io/SerializeUtil.java", JRT + "DebugStringUtil.java", CRT + "SerializeUtil.h", CRT + "DebugStringUtil.h", CRT + "FileUtil.cpp"],
     [("serialization helpers", PRT + "serialization.py, " + JRT + "io/SerializeUtil.java, " + CRT + "SerializeUtil.h"), ("debug string helpers", PRT + "debugstring.py, " + JRT + "DebugStringUtil.java, " + CRT + "DebugStringUtil.h"), ("files", CRT + "FileUtil.cpp")],
     "explicit-state exploration of histories of helper calls over a model of a file's contents, each replayed with the real helpers of three languages (Python with both of its implementations); exhaustive truncations",
     TRUST + "Write failures are those of /dev/full. C++ has no file helpers for enumerations and bitmasks. Open: texts that are no UTF-8 after damage, very long broken JSON files.")

prop("C16", "The compiler accepts exactly the schemas the language allows",
     "For every schema, the compiler accepts it exactly if it keeps the rules of doc/ZserioLanguageOverview.md (syntax, kinds of operands and of clauses, value ranges, what may be used where and before what, names and scopes, imports, cycles and recursion, choice cases, extended fields, SQL tables); otherwise it refuses it with a message that tells file, line and column. It never ends with an internal error.",
     ["programs", "inputs"], "all schemas of ten rule families (operators x kinds of operands x clauses, types x places, graphs of references among three declarations, import lists x references, names x scopes, boundary values) and all one-token changes of a full schema",
     "Each rule is a product of kinds and places; unit tests do not run the front end on schemas at all, and a wrongly accepted schema surfaces only as broken generated code.",
     [CORE + "ast/", CORE + "antlr/util/", "compiler/core/antlr/", CORE + "tools/ZserioTool.java"],
     [("kinds of expressions", CORE + "ast/Expression.java"), ("checks of declarations", CORE + "ast/ZserioAstChecker.java"), ("resolving of types and cycles", CORE + "ast/ZserioAstTypeResolver.java"), ("names and imports", CORE + "ast/Package.java, " + CORE + "ast/Scope.java"), ("syntax", "compiler/core/antlr/")],
     "exhaustive enumeration of the schemas of each rule; each given to the compiler built from the working tree and its verdict compared with the rule",
     "Trusts the rules as written in mc/front.py. Open (only a located refusal or acceptance without internal error is asked): implicit bitmask values after an explicit zero, a default case when all enumeration items are handled, names with a leading underscore refused by the Python generator, SQL tables as types of parameters, order of floating point and boolean comparisons.")

prop("C17", "Data of every schema version can be read by the versions it is compatible with",
     "Data written with any version of a schema are read by older and newer versions as the schema evolution guide says - extended fields absent or present, new items, cases and fields known or refused - and are written back unchanged; whatever sequence of reading, setting, resetting and copying an object with extended fields goes through, its presence queries, size and written bits are those of the extended fields it then has, and removed enumeration items are read but refused when written.",
     ["histories", "inputs"], "all pairs of versions of 50 type chains with 30 kinds of extended fields, all truncations, all histories of 3 (thorough: 4) operations on objects with every number of extended fields",
     "Whether an extended field is present is a state that every generated accessor, check and expression must respect; no stable test generates a structure with extended fields.",
     [CX + "freemarker/Structure.cpp.ftl", JX + "freemarker/Structure.java.ftl", JX + "freemarker/CompoundField.inc.ftl", PX + "freemarker/Structure.py.ftl", PX + "freemarker/Enumeration.py.ftl", JX + "freemarker/Enumeration.java.ftl"],
     [("presence of extended fields in readers, setters and writers", "freemarker/Structure.*.ftl"), ("removed items", "freemarker/Enumeration.*.ftl")],
     "explicit-state exploration of object histories over all pairs of schema versions; each trace replayed on generated code in all three languages",
     TRUST + "Open: fields without a value after a later extended field was set; empty extended fields at the end of the data cannot be told from absent ones.")

prop("C18", "Repeated generator runs leave exactly what a run from scratch gives",
     "After any history of edited sources, removed outputs, a newer tool, changed options and completed runs of the generators over one output directory, a run leaves every file that a run from scratch with the same sources and options would write, with the same contents (files of earlier runs may remain). Runs from scratch with the same sources and options give the same files, byte for byte, wherever and whenever they run.",
     ["histories"], "all ordered pairs of 16 option sets in walks over one directory, every edit, removal and tool change between two runs for all pairs of options and main files, sequences of runs and edits",
     "A generated file is skipped when it is newer than the sources and its header names the same options; whether stale code survives depends on the runs before, and no stable test runs a generator twice.",
     [CORE + "extension/common/OutputFileManager.java", CORE + "extension/common/FreeMarkerUtil.java", CORE + "tools/InputFileManager.java", CORE + "tools/ResourceManager.java", "compiler/extensions/python/src/zserio/extension/python/PythonExtensionParameters.java", "compiler/extensions/java/src/zserio/extension/java/JavaExtensionParameters.java", "compiler/extensions/cpp/src/zserio/extension/cpp/CppExtensionParameters.java", "compiler/extensions/cpp/src/zserio/extension/cpp/CppDefaultEmitter.java"],
     [("which files are skipped", CORE + "extension/common/OutputFileManager.java, compiler/extensions/*/src/zserio/extension/*/*DefaultEmitter.java"), ("description of the options in generated files", "compiler/extensions/*/src/zserio/extension/*/*ExtensionParameters.java"), ("time of the sources and of the tool", CORE + "tools/InputFileManager.java, " + CORE + "tools/ExtensionParameters.java")],
     "explicit-state exploration of histories of runs on a model (state: sources, options, main file; a run is a function of it); every trace replayed with the compiler built from the working tree and the directory compared after every run",
     "Runs are separated by at least a clock tick of the file system. Not covered: runs that are killed half-way. Known finding: another main file over the same directory.")

prop("C19", "Service calls and topic messages arrive as sent, or fail, exactly once",
     "A call through a generated client reaches the method of that name of the service once, with the request's encoding and the caller's context, and returns what the implementation answered; unknown methods, requests or responses that cannot be parsed, failing implementations and failing transports end in an error at the caller and nowhere else. A published message is delivered once to every subscription of its topic made by any message of any pubsub object, decoded with the subscribed type, in the state given when it was published, and to nobody after unsubscribing; one subscription's failure to decode does not change the others. Names and topics are those of the schema.",
     ["histories", "inputs"], "all methods x request values x response values x failures, every truncation of requests and responses, all pairs of subscriptions x all messages, all sequences of 3 (thorough: 4) pubsub operations; Python, Java and C++ with and without reflection",
     "Clients, services and pubsub classes are generated from templates of their own which no stable test runs; what arrives depends on all subscriptions before.",
     [CX + "freemarker/Service.cpp.ftl", CX + "freemarker/Pubsub.cpp.ftl", JX + "freemarker/Service.java.ftl", JX + "freemarker/Pubsub.java.ftl", PX + "freemarker/Service.py.ftl", PX + "freemarker/Pubsub.py.ftl", PRT + "service.py", PRT + "pubsub.py", JRT + "service/", JRT + "pubsub/", CRT + "IService.h", CRT + "IPubsub.h"],
     [("service and pubsub templates", "freemarker/Service.*.ftl, Pubsub.*.ftl"), ("service data of the runtimes", PRT + "service.py, " + JRT + "service/, " + CRT + "IService.h")],
     "explicit-state exploration of call and subscription histories on a model of services and brokers; each trace replayed on generated clients, services and pubsub objects with recording backends",
     TRUST + "The transport and the broker are the harness's own (in-memory, synchronous).")

prop("C22", "C++ holders and views behave as values, and memory goes back to its allocator",
     "Whatever sequence of construction, assignment, moving, resetting and failing a C++ OptionalHolder or AnyHolder goes through - with any allocator, assigned from itself or a part of itself - it then holds exactly the value last given to it or none, every element is destroyed once and every piece of memory is returned once to the allocator it came from, which is the one the allocator's propagation rules select. Generated objects read, constructed or copied with a polymorphic allocator take memory from it only, and nothing leaks when any allocation fails or the data end early. StringView, Span and number conversion give what their counterparts in the standard library give.",
     ["histories", "faults", "inputs"], "all sequences of 25 (optional) and 32 (AnyHolder) operations on two holders to depth 3 (thorough: 4) for 17 combinations of element and allocator, each with every failure point of its last operation; every failing allocation and truncation for every object of two schema families; all strings to length 4 (thorough: 6) with all needles, positions and counts",
     "Lifetime errors need a certain sequence, aliasing, allocator or failure; all fields of generated C++ objects live in these holders, and no stable test runs C++ code.",
     [CRT + "AnyHolder.h", CRT + "OptionalHolder.h", CRT + "UniquePtr.h", CRT + "AllocatorPropagatingCopy.h", CRT + "AllocatorHolder.h", CRT + "pmr/PolymorphicAllocator.h", CRT + "StringView.h", CRT + "Span.h", CRT + "StringConvertUtil.h", CX + "freemarker/CompoundConstructor.inc.ftl"],
     [("holders and their storage", CRT + "AnyHolder.h, OptionalHolder.h, UniquePtr.h"), ("allocator propagation in the runtime and in generated constructors", CRT + "AllocatorPropagatingCopy.h, " + CX + "freemarker/CompoundConstructor.inc.ftl"), ("views and conversion", CRT + "StringView.h, Span.h, StringConvertUtil.h")],
     "stateless exploration of all operation sequences and failure points on the real holders with tracked elements and memory against a model; exhaustive comparison of views with the standard library",
     TRUST + "Open: what a moved-from holder keeps, NoInit with lvalues, empty needles of StringView searches behind the end and empty character sets. Ordinary copies and assignments may use the default resource.")

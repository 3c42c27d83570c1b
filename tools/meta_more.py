p("C11", "Optimized descriptors have no redundancy left",
  "An optimized descriptor never sets a global to the value it already has, never declares physical bounds equal to "
  "the logical ones, uses the page in force when a main item's usages share one page, and a range for three or "
  "more consecutive usages, strings or designators, and omits a lone designator of zero. Adjacent data items of one value each of a compiled tree that differ only in "
  "usages, strings or designators of the same page are merged into one, optimizing again saves nothing more, and the optimized form of a tree is never the longer one.",
  ["programs", "inputs"], "compiled trees of the shapes and streams of the templates within the bounds",
  "Redundancy appears for particular coincidences of neighbours' attributes; the tests hold four fixed descriptors.",
  [O], [("GlobalMerge, MainMerge, PhysicalMerge, RangeMerge, UsagePage", O)],
  "51 tree shapes optimized once, 39 of them twice, 33 stream templates with Push/Pop")

p("C14", "A dumped descriptor is a script that builds the same descriptor",
  "The Python source written for any descriptor tree, hand-written or decompiled, evaluates to a tree that declares "
  "the same collections, reports, values, named arrays, padding and alignment with the same attributes. Run as a "
  "program it compiles that descriptor; imported, it only defines it.",
  ["programs", "inputs"], "trees of the shapes and decompiled streams of the templates within the bounds",
  "No test dumps a descriptor, and default values are left out of the script attribute by attribute.",
  [D + "dumper.py", D + "extractor.py", U + "usage.py"], [("Dumper", D + "dumper.py"), ("Usage.lookup names", U + "usage.py")],
  "50 tree shapes and 33 decompiled stream templates; numbers in the script stay symbolic while it is evaluated")

p("C16", "Named constants behave as the numbers they stand for",
  "Adding, multiplying, and-ing, or-ing, shifting, inverting, comparing, ordering or hashing named constants, among "
  "themselves or with integers, gives what the same operation gives on their numbers; names play no role. The "
  "flags, collection kinds and report ways have the values and bits of the HID standard.",
  ["inputs"], "every pair of 32-bit values, every combination of three flags",
  "Tests combine a handful of flags only.",
  ["hrdc/util/named_constant.py", S + "item.py", D + "descriptor.py"], [("NamedConstant", "hrdc/util/named_constant.py")],
  "operands are 32-bit symbols")

p("C17", "Units hold each dimension's exponent in its place",
  "Each unit dimension (length, mass, time, temperature, current, luminous intensity) takes exponents from -8 to 7 "
  "and puts them in its own nibble in two's complement, independent of the others; other exponents are refused. "
  "The usual named units have the codes of the HID standard.",
  ["inputs"], "every exponent, every three dimensions, every unit system",
  "No test uses a unit with a negative exponent.",
  [S + "item.py"], [("_unit_nibble, Unit", S + "item.py")],
  "exponents -1000..1000, combinations of three dimensions")

p("C18", "The test helper accepts exactly the expected descriptor",
  "Comparing a stream with expected code passes exactly when the bytes of the stream are the bytes of the code: a "
  "differing, missing or extra byte fails, at any position. Layout and comments of the expected code play no role.",
  ["inputs"], "streams of up to two items against up to three expected ones, every byte value",
  "The project's tests rely on this helper: they cannot tell when it accepts too much.",
  [S + "comparer.py", D + "test.py"], [("ExpectedStream", S + "comparer.py"), ("descriptor_expected", D + "test.py")],
  "bytes symbolic, lengths 0 to 3 items, four layouts of the expected code")

p("C19", "Processing is repeatable and descriptors are independent",
  "Compiling, dumping, optimizing, parsing, formatting or decompiling a descriptor gives the same result every time "
  "and leaves trees, items, the lists they were made of and usage tables as they were. Descriptors processed before, after, or in turns with another "
  "one in the same process, finished or not, do not influence it.",
  ["histories", "inputs"], "two descriptors within the bounds, in any of the listed histories",
  "Every test compiles one descriptor once, in a fresh state.",
  [D, O, PA, F, U + "usage.py"], [("per object state, no shared mutable defaults", D + "streamer.py")],
  "histories of two to three runs over 10 tree shapes, item-wise interleavings of two streams, lists of up to 17 usages")

p("C20", "The command line programs do what their options say",
  "The converter, decompiler and compiler programs read the given file or standard input in the format asked for "
  "and write only the result, in the format asked for, to the given file or standard output; binary is the "
  "default and works with named files. The converter optimizes only when told to, a descriptor script "
  "optimizes unless told not to.",
  ["configurations", "inputs"], "every format pair, option spelling and way to name files; payloads symbolic",
  "No test runs a program.",
  ["hrdc/converter.py", D + "compiler.py", D + "extractor.py", PA + "binary.py", F + "binary.py"],
  [("_main", "hrdc/converter.py"), ("compile_main", D + "compiler.py"), ("main", D + "extractor.py")],
  "13 items with 4 symbolic payloads per run; files and streams are in-memory stand-ins")

p("C21", "Any selection of optimizers preserves meaning",
  "Each optimizer alone, and any selection of them made with the precedence bounds of Optimizer.new, gives a "
  "descriptor with the meaning of the original: same collections, controls, attributes, report layout. Bounds "
  "select exactly the optimizers whose precedence lies between them; ones that select none pass items through "
  "unchanged.",
  ["configurations", "inputs"], "every optimizer alone, every leading and trailing run of optimizers, on arbitrary streams within the templates",
  "Tests only run the full chain, where later optimizers may hide what an earlier one breaks.",
  [O], [("Optimizer.new", O + "base.py"), ("optimizers", O)],
  "22 selections over the stream templates of C10, values symbolic")

p("C22", "Declarations are completed with the documented defaults or refused",
  "Arguments of Value that are not given act as their documented defaults, given by position or by name alike; a "
  "named array sets its flags and bounds, an empty one is none; a variable without logical bounds is refused with ValueError. Trees "
  "built by appending and removing members equal those built at once.",
  ["inputs", "configurations"], "each argument alone and pairs of them, values symbolic; 0 to 3 members",
  "Tests use a handful of argument combinations with constants.",
  [D], [("Value", D + "descriptor.py"), ("Collection, Report, TopLevel", D + "descriptor.py")],
  "argument subsets to three, symbolic values; member lists to three")

p("C23", "The decompiler refuses descriptors whose structure does not close",
  "Decompiling a stream that ends a collection it did not begin, pops what it did not push, or leaves a collection "
  "open fails with an error instead of yielding a tree. Every other stream of collections, reports and data inside "
  "of collections is decompiled, to a tree with as many collections and values.",
  ["inputs"], "every sequence of steps (collection, end, Push, Pop, data, report id) up to the bound",
  "No test decompiles anything, let alone a damaged descriptor.",
  [D + "extractor.py"], [("Extractor.append, Extractor.close", D + "extractor.py")],
  "sequences of up to 4 steps of 6 kinds (6 in thorough), 8 of collections and ends, 2 within up to 4 collections and 2 pushes, 3 with data of 0 to 3 bits, nesting to 34; usages and one kind symbolic")

p("C24", "Programs fail on what they cannot read",
  "The converter, decompiler and compiler programs end with a failure when the input is truncated, holds an item that "
  "does not exist or code that is not made of bytes, when collections do not match (decompiler), and when a format, an "
  "option or an input file does not exist. On a good descriptor they end well.",
  ["inputs", "configurations"], "every kind of damage at several places, every input format, named files and standard streams",
  "No test runs a program, and none feeds a damaged descriptor to anything.",
  ["hrdc/converter.py", D + "compiler.py", D + "extractor.py", PA],
  [("_main", "hrdc/converter.py"), ("compile_main", D + "compiler.py"), ("main", D + "extractor.py")],
  "10 items with a symbolic payload, damage out of the listed ones; files and streams are in-memory stand-ins")

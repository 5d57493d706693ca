prop(
    "C04", "What a unit is and does never depends on what was done before or where",
    "Every answer about a unit (text, dimensionality, convertibility, conversion, equality) is a function of the"
    " unit system's registrations and the unit's text alone: not of earlier parses, refused texts, conversions or"
    " comparisons, nor of other systems in the process. It is the same in every process, whatever the hash seed,"
    " locale, working directory and its files, environment, time zone, decimal context, warning filters, optimisation level, or which optional packages (numpy, scipy, lxml) are"
    " installed.",
    ["histories", "schedules"], "every history of operations, every interleaving of several systems, every process environment",
    "tests perform one operation on one system in one process.",
    ["_unit.py", "_unit_system.py", "_expr/sympy.py", "_grammar/__init__.py"],
    [("cached symbolic definitions", "_unit.py:Unit._symbolic_definition"),
     ("lazily resolved definitions", "_unit_system.py:LazilyDefinedUnit"),
     ("shared parser state", "_grammar/__init__.py:parse"),
     ("operands of an operation are left alone", "_expr/substitute.py:Substitute")],
    "stateful property-based testing: histories replayed on fresh systems, interleaved systems against models, and across processes",
    "Each step of a generated history is repeated on new units of an unused system; systems with other definitions of"
    " the same names are interleaved; whole histories are repeated in processes with other environments." + TRUST,
    ["UnitSystem.unit", "Converter", "Unit.__eq__", "Unit.dimensionality"],
)
prop(
    "C08", "A unit database in the UDUNITS-2 XML format is loaded as it is written",
    "Loading a unit database registers every prefix, basis unit, dimensionless unit, definition, name, plural, symbol"
    " and alias it contains, and nothing else, with the regular plurals of UDUNITS-2 where none is given, whatever"
    " the order of the entries, the XML namespaces, encoding, comments and white space."
    " A spelling given twice is refused, and the strict loader refuses content it does not know.",
    ["inputs"], "every well formed unit database, in every XML style and encoding, with forward references",
    "tests load the bundled database and two tiny ones; other databases, plural rules and XML styles are unbounded.",
    ["_udunits2_xml_parser.py", "_unit_system.py", "_unit_reference.py"],
    [("loader", "_udunits2_xml_parser.py:UDUNITS2XMLParser"),
     ("plurals", "_udunits2_xml_parser.py:UDUNITS2XMLParser.handle_name"),
     ("strict loader", "_udunits2_xml_parser.py:UnhandledContentDisallowed"),
     ("definitions resolved when first used", "_unit_system.py:LazilyDefinedUnit")],
    "property-based testing: generated databases written as XML, loaded and compared with a model of the same database",
    "Thousands of generated databases in random XML styles; every spelling, prefixed spelling and absent word looked up." + TRUST,
    ["UnitSystem.from_udunits2_xml", "UDUNITS2XMLParser.parse_file"],
)
prop(
    "C18", "A time unit since a date is a date unit, and nothing else is",
    "A text whose outermost operator shifts a unit of time is a date unit, with that unit and that reference as"
    " written; a shift of any other unit by a number is a unit with an origin, and by a date is refused."
    " A date unit nested in any other expression is refused, in every spelling of the operator and the date.",
    ["inputs"], "every unit under every spelling of the shift, every documented form of date, time and zone",
    "tests try some dates with 'days' and 's'; whether a unit measures time depends on its whole definition.",
    ["_unit.py", "_expr/normaliser.py", "_grammar/__init__.py"],
    [("choice of a date unit", "_unit.py:_unit_from_expression_and_identifiers"),
     ("refusal of nested dates", "_expr/normaliser.py:NormalisedExpressionGraph"),
     ("what measures time", "_unit.py:Unit.is_time_unit")],
    "property-based testing against an exact dimension calculus and an independent recogniser of the date grammar",
    "Generated units of time and near misses, under shifts by generated dates and numbers, alone and nested." + TRUST,
    ["UnitSystem.unit", "DateUnit.unit", "DateUnit.reference_date"],
)
prop(
    "C19", "Dates and times are values",
    "Two Date, Time or DateTime objects are equal exactly when all of their fields are, equal ones hash alike, and"
    " copies and pickles are equal to the original; none of them ever equals something of another kind."
    " The text of a time shows its fields in full, so that different times have different texts.",
    ["inputs"], "every combination of field values",
    "tests construct two datetimes.",
    ["_datetime.py"],
    [("values", "_datetime.py:Date, Time, DateTime"), ("text of a time", "_datetime.py:Time.__str__")],
    "property-based testing: generated values and single-field variations, injectivity of the text",
    "Pairs which are equal or differ in one field only." + TRUST,
    ["DateTime.__eq__", "DateTime.__hash__", "str(Time)"],
)
prop(
    "C20", "The command line tells what the library does",
    "'conversion-expr' shows an expression which, evaluated at any value, gives what a Converter of the same units"
    " gives, and fails exactly for units which do not convert; 'explain-unit' shows the text, dimensionality"
    " and expanded form which the library gives. 'debug-parser' shows the tokens of the text in order, together"
    " covering it all.",
    ["inputs"], "every pair of unit texts and every value; every unit text; every line of text",
    "tests run three fixed commands.",
    ["__main__.py", "_unit.py"],
    [("commands", "__main__.py:main"), ("shown expression", "_unit.py:Converter.expression")],
    "property-based testing: the program's output parsed and evaluated against the library and the reference model",
    "The program is run in process on generated arguments; shown expressions are evaluated independently." + TRUST,
    ["python -m pyudunits2", "Converter.expression"],
)
prop(
    "C21", "The expanded form of a unit uses only basis units, and means the same",
    "The expanded form of any unit is a unit text in which every identifier is a basis unit, and which denotes"
    " exactly the same quantity: the same scale, origin, logarithm and dimensions, and is equal to the unit."
    " Expanding again changes nothing, and a date unit expands to its expanded unit and the same reference.",
    ["inputs"], "every expression over every named and prefixed unit",
    "tests expand four units and compare with fixed strings; precedence must survive substitution at every place.",
    ["_unit.py", "_expr/substitute.py", "_expr/graph.py"],
    [("substitution of definitions", "_expr/substitute.py:Substitute"), ("expansion", "_unit.py:Unit.expanded"),
     ("text of operators", "_expr/graph.py:Raise, Multiply, Divide")],
    "property-based testing against an exact reference model: the expanded text is read back by the model",
    "Generated expressions over named units; exact rational comparison." + TRUST,
    ["Unit.expanded"],
)
prop(
    "C22", "Collecting the terms of an expression keeps its value",
    "Expanding a product of powers into its terms keeps its value exactly for whole numbers (to rounding for others),"
    " leaves each name at most once with its total order, drops what cancels, keeps an origin, and leaves the"
    " expression it was given as it was.",
    ["inputs"], "every nesting of products, quotients and powers of names and numbers",
    "tests collect twenty fixed expressions.",
    ["_expr/expander.py", "_expr/graph.py"],
    [("collection of terms", "_expr/expander.py:ChainedExpr.terms"), ("expansion", "_expr/expander.py:Expander")],
    "property-based testing against exact rational arithmetic over independent names",
    "Generated nestings of few and many names; exact comparison." + TRUST,
    ["pyudunits2._expr.expander.Expander"],
)
prop(
    "C23", "A copy or a pickle of a unit or unit system means the same",
    "A copy, deep copy or pickle (in this process or another) of a unit, a date unit, a dimensionality or a unit"
    " system has the same text, expanded form and dimensionality, is equal to the original where it is a unit, and"
    " converts, compares and resolves as the original does, whatever either was used for before, and together with"
    " it. Units registered in a deep copy of a unit system, or in the original, do not appear in the other.",
    ["inputs", "histories"], "every unit, and every history of uses, copies and registrations",
    "tests copy nothing; what must survive are the caches, the lazily resolved definitions and the identity of basis"
    " units, in any state a history leaves them in.",
    ["_unit.py", "_unit_system.py", "_unit_reference.py", "_expr/graph.py"],
    [("identity of basis units", "_unit.py:BasisUnit, Dimensionality.__eq__"),
     ("lazily resolved definitions", "_unit_system.py:LazilyDefinedUnit"),
     ("values of expressions", "_expr/graph.py:Number")],
    "property-based testing: generated histories in which units and systems are replaced by copies or pickles of"
    " themselves, differentially against new ones; registrations in branching systems against a model",
    "Histories of some twenty steps; pickle protocols 2 to 5; other processes with other hash seeds." + TRUST,
    ["copy", "pickle", "Unit", "UnitSystem"],
)
prop(
    "C24", "Threads which share units and a unit system get the answers of a single one",
    "Texts, look-ups, conversions, comparisons, dimensionalities and expanded forms which several threads ask of the"
    " same units and unit system at the same time, used before or not, are what each thread would get alone, and every"
    " thread gets its answer.",
    ["inputs", "schedules"], "every set of reading operations, every interleaving of their lines",
    "tests have one thread; a race in a cache which is filled on first use needs a switch between two given lines.",
    ["_unit.py", "_unit_system.py", "_grammar/__init__.py", "_expr/split.py"],
    [("first use of a definition", "_unit_system.py:LazilyDefinedUnit.resolve"),
     ("first conversion of a unit", "_unit.py:Unit._symbolic_definition"), ("parsing", "_grammar/__init__.py:parse")],
    "property-based testing over generated schedules: threads stopped and continued line by line, and freely switching"
    " ones, differentially against the same operations alone",
    "Two or three threads, up to thirty switches at generated lines; lines of pyudunits2 itself, not of its parser"
    " runtime or of sympy." + TRUST,
    ["UnitSystem.unit", "Converter", "Unit"],
)

"""Writes properties.jsonl and MANIFEST.json (the properties and their checks).

    /opt/venv/bin/python tools/spec.py
"""

import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPERTIES = []
CHECKS = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=()):
    assert len(title) <= 80, title
    PROPERTIES.append({
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": ["pyudunits2/" + f for f in files],
            "mechanism": [{"name": n, "where": "pyudunits2/" + w} for n, w in mechanism],
            "observe_at": list(observe),
        },
    })
    CHECKS.append({
        "property": id,
        "quick_cmd": f"/opt/venv/bin/python run.py {id} --tier quick",
        "thorough_cmd": f"/opt/venv/bin/python run.py {id} --tier thorough",
        "technique": technique,
        "level": "exploration",
        "level_note": note,
    })


TRUST = (
    " Trusts: the reference model in vlib/model.py (exact rationals, written from the"
    " UDUNITS-2 documentation), the snapshot of the unit database in data/, Hypothesis."
)
CLIB = (
    " A value is only held against the code when the UDUNITS-2 C library (cf_units),"
    " where it accepts the pair, agrees with the model."
)

prop(
    "C01", "Every spelling of an expression is read with the structure UDUNITS-2 gives it",
    "Parsing a unit expression yields exactly the operators, operands, exponents, numbers, shifts and"
    " logarithms that the UDUNITS-2 grammar assigns to the text: products and quotients associate to the"
    " left, a power binds tighter than either, a shift loosest of all. Every alternative spelling (spaces,"
    " '.', '*', '·', '-', juxtaposition, '/', 'per', '^', '**', superscripts, attached exponents, '@',"
    " 'since', 'from', 'after', 'ref', redundant parentheses) denotes the same expression."
    " Where the UDUNITS-2 C library also accepts a text, both give it the same meaning.",
    ["inputs"], "every grammatical expression over every spelling of each operator, any nesting",
    "the parametrised parser tests list about a hundred fixed strings; the combinations of spellings, nesting"
    " and number formats are unbounded.",
    ["_grammar/__init__.py", "_grammar/udunits2Parser.g4", "_grammar/udunits2Lexer.g4.jinja", "_expr/graph.py"],
    [("parse tree to graph", "_grammar/__init__.py:UnitParseVisitor"),
     ("number and superscript handling", "_grammar/__init__.py:handle_UNICODE_EXPONENT, handle_FLOAT"),
     ("generated lexer and parser", "_grammar/parser")],
    "property-based testing: generated expressions spelt at random, against the generating tree and the UDUNITS-2 C library",
    "Tens of thousands of generated (tree, spelling) pairs a run; the oracle is the tree the text was made from,"
    " and differentially the C library's meaning of the same text." + TRUST,
    ["pyudunits2._grammar.parse", "UnitSystem.unit"],
)
prop(
    "C02", "Every text is either read as the grammar documents or cleanly refused",
    "For every text whatsoever (nested or chained no deeper than Python's recursion limit allows), parsing ends, and"
    " either returns the expression which the documented grammar"
    " gives it or raises SyntaxError; no other exception escapes, nothing is silently dropped, and no input"
    " is accepted which the grammar does not derive. Nothing is printed.",
    ["inputs"], "every Unicode string: grammatical, mutated, truncated, or random",
    "the tests list some thirty invalid strings; acceptance and refusal must partition all strings.",
    ["_grammar/__init__.py", "_grammar/udunits2Parser.g4", "_grammar/udunits2Lexer.g4.jinja"],
    [("error listener", "_grammar/__init__.py:SyntaxErrorRaiser"), ("entry point", "_grammar/__init__.py:parse")],
    "property-based and grammar-mutation fuzzing against an independent recogniser of the documented grammar",
    "Mutated, spliced and random texts; acceptance, refusal and structure compared with vlib/refgrammar.py, a"
    " recogniser written independently from the documented grammar." + TRUST,
    ["pyudunits2._grammar.parse"],
)
prop(
    "C03", "The text of a unit reads back as the same unit",
    "The text form of any unit or date unit is itself a valid unit text which denotes the same thing: the same"
    " expression structure, dimensionality and conversions, whatever operators are nested in whatever order."
    " Writing and reading again changes nothing further.",
    ["inputs"], "every expression the parser can produce, including every operator nested within every other",
    "tests print a handful of units and compare with fixed strings; parenthesisation must be right for every nesting.",
    ["_expr/graph.py", "_unit.py"],
    [("text of each operator", "_expr/graph.py:Raise, Multiply, Divide, Shift, Logarithm"),
     ("text of units", "_unit.py:Unit.__str__, DateUnit.__str__")],
    "property-based testing: print/parse round trip over generated expressions and units",
    "Round trip with the expression tree as the oracle, over all operators and nesting." + TRUST,
    ["str(unit)", "UnitSystem.unit"],
)
prop(
    "C05", "Every spelling in the unit database is that unit",
    "Every name, plural, symbol and alias that the UDUNITS-2 database gives a unit (within the documented"
    " character set) can be used as a unit text and as a look-up, and means exactly what the database"
    " defines for it.",
    ["inputs"], "every spelling of every entry of the database (enumerated completely)",
    "tests touch a dozen names; the database has over a thousand spellings, each a separate way to be wrong.",
    ["_udunits2_xml_parser.py", "_unit_system.py", "udunits2_combined.xml"],
    [("database loader and plurals", "_udunits2_xml_parser.py:UDUNITS2XMLParser"),
     ("lookup", "_unit_system.py:UnitSystem.unit_by_name_or_symbol")],
    "exhaustive enumeration of the database's spellings against an exact reference model",
    "Complete over the finite set of spellings; each compared exactly (rational scale, origin, dimensions) with the model." + TRUST,
    ["UnitSystem.unit", "UnitSystem.unit_by_name_or_symbol", "Unit.expanded"],
)
prop(
    "C06", "A prefix scales the unit it is put before, and nothing else resolves",
    "An identifier resolves to the unit of that name or symbol if there is one, otherwise to the longest prefix"
    " that leaves a known unit, scaled by the prefix's value; an identifier for which there is neither raises"
    " UnresolvableUnitException. The outcome never depends on how the remainder is itself spelt.",
    ["inputs"], "every prefix with every unit spelling, and arbitrary words",
    "tests try a few prefixed names; collisions between prefixes, symbols and names arise only in the full product.",
    ["_unit_system.py", "_unit_reference.py"],
    [("prefix resolution", "_unit_system.py:UnitSystem.unit_by_name_or_symbol, _longest_first"),
     ("prefix value", "_unit_reference.py:Prefix._expanded_expr")],
    "property-based testing over the product of prefixes and names, against a reference resolver",
    "Generated prefix/name pairs and arbitrary words, resolved independently by the model; values exact." + TRUST,
    ["UnitSystem.unit", "UnitSystem.unit_by_name_or_symbol"],
)
prop(
    "C07", "A unit system answers as its registrations say, after any history of them",
    "After any sequence of adding prefixes, basis units and derived units (replacing or not), interleaved with"
    " look-ups, every look-up gives the unit most recently registered under that name or symbol, or refuses"
    " when there is none; a name comes before an alias of it, and either before a symbol. Adding under a taken"
    " name without replacing raises ValueError and changes nothing; a unit which was looked up before its name"
    " was registered again keeps its meaning; definitions may refer to units registered later, as long as they are there when first used.",
    ["histories"], "every sequence of registrations, replacements and look-ups on one or more systems",
    "tests make two or three registrations in one order; the outcome must not depend on order, laziness or earlier look-ups.",
    ["_unit_system.py", "_unit_reference.py", "_unit.py"],
    [("registration", "_unit_system.py:UnitSystem.add_unit, add_prefix"),
     ("lazy definitions", "_unit_system.py:LazilyDefinedUnit.resolve"),
     ("lookup", "_unit_system.py:UnitSystem.unit_by_name_or_symbol")],
    "model-based (stateful) property testing: generated registration histories against a reference registry",
    "Histories of registrations and look-ups compared step by step with vlib/registry.py." + TRUST,
    ["UnitSystem.add_unit", "UnitSystem.add_prefix", "UnitSystem.unit_by_name_or_symbol"],
)
prop(
    "C09", "The dimensionality of a unit is the one its definition implies",
    "The dimensionality of a unit is, for each basis unit, the total order to which its definition raises it:"
    " orders add in products, subtract in quotients, multiply in powers, are unaffected by factors, origins and"
    " logarithms, and those which cancel (or belong to dimensionless basis units) are absent."
    " Being dimensionless or a time unit follows from exactly that.",
    ["inputs"], "every expression over every named and prefixed unit",
    "tests check about ten dimensionalities; the law is about every expression.",
    ["_expr/dimensionality.py", "_expr/split.py", "_unit.py"],
    [("counting orders", "_expr/dimensionality.py:DimensionalityCounter"),
     ("dimensionality of a unit", "_unit.py:Unit.dimensionality, is_dimensionless, is_time_unit"),
     ("separating value transformations", "_expr/split.py:SplitExpr")],
    "property-based testing of generated expressions against an exact dimension calculus",
    "Generated expressions, products, cancelling products and named units; orders compared exactly." + TRUST,
    ["Unit.dimensionality", "Unit.is_dimensionless", "Unit.is_time_unit"],
)
prop(
    "C10", "Units convert exactly when their dimensionalities agree or are inverse",
    "Two units are convertible if and only if their dimensionalities are equal or each other's inverse, and a"
    " converter can be made for exactly those pairs: for any other pair, and whenever a date unit is involved,"
    " IncompatibleUnitsError is raised. Convertibility is symmetric and every unit is convertible to itself.",
    ["inputs"], "every pair of units, including date units, logarithms, units with an origin and dimensionless ones",
    "tests cover three or four pairs; it must hold over all pairs.",
    ["_unit.py", "_exceptions.py"],
    [("convertibility", "_unit.py:Unit.is_convertible_to, DateUnit.is_convertible_to"),
     ("converter construction", "_unit.py:Converter.__init__")],
    "property-based testing of generated pairs against an exact dimension calculus",
    "Pairs generated to be equal, inverse, nearly equal or unrelated; both directions and the converter checked." + TRUST,
    ["Unit.is_convertible_to", "Converter"],
)
prop(
    "C11", "Conversion between multiples of the same basis units is exact scaling",
    "Converting a value between two units of the same dimensionality and no origin multiplies it by the exact"
    " ratio of their scales as the definitions imply, to within floating point rounding, for every value and"
    " however the units are spelt, prefixed, multiplied, divided or raised.",
    ["inputs"], "every pair of convertible origin-free units and every finite value",
    "tests check a few constants; a wrong factor in any definition, prefix or exponent path escapes them.",
    ["_unit.py", "_expr/sympy.py", "_expr/substitute.py", "_expr/split.py"],
    [("conversion", "_unit.py:Converter"), ("substitution of definitions", "_expr/substitute.py:Substitute"),
     ("symbolic form", "_expr/sympy.py:ToSympy")],
    "property-based differential testing against exact rational arithmetic and the UDUNITS-2 C library",
    "Generated pairs of the same dimensionality, relative tolerance 1e-10." + CLIB + TRUST,
    ["Converter.convert"],
)
prop(
    "C12", "Units with an origin convert with their origin",
    "Converting from or to a unit with an origin (temperatures, shifted units, repeatedly shifted units, multiples"
    " of these) maps values by the affine relation the definitions imply, to within rounding; an origin inside a"
    " product, quotient or power other than a plain multiple has no effect, as in UDUNITS-2.",
    ["inputs"], "every pair of convertible units of which at least one has an origin, and every value",
    "tests convert degC/degF/K for a few values; nested, scaled and multiply shifted units are unbounded.",
    ["_unit.py", "_expr/split.py", "_expr/normaliser.py"],
    [("separation of shift from scale", "_expr/split.py:SplitExpr.visit_Shift, discard_ineffective_shifts"),
     ("normalisation", "_expr/normaliser.py:NormalisedExpressionGraph"), ("conversion", "_unit.py:Converter")],
    "property-based differential testing against exact affine arithmetic and the UDUNITS-2 C library",
    "Generated shifted units and database units with origins." + CLIB + TRUST,
    ["Converter.convert"],
)
prop(
    "C13", "Logarithmic units transform the value, in the base they name",
    "A value x of a unit 'LOG(re U)' is base^x of U, for lg and log (ten), ln (e) and lb (two), with any reference,"
    " nested logarithms, and references with origins; conversion to and from such units in either direction"
    " follows from that, to within rounding.",
    ["inputs"], "every logarithmic unit over every reference, in both directions, and every value in range",
    "tests convert five logarithmic units at one value each.",
    ["_unit.py", "_expr/split.py", "_expr/sympy.py"],
    [("value transformations", "_expr/split.py:SplitExpr.visit_Logarithm"),
     ("logarithm bases", "_expr/sympy.py:ToSympy.visit_Logarithm"), ("inversion", "_expr/sympy.py:invert_transform")],
    "property-based differential testing against 40-digit arithmetic and the UDUNITS-2 C library",
    "Generated logarithmic units, nested and with references of every kind; the scaled logarithms which the code"
    " treats otherwise are recorded findings." + CLIB + TRUST,
    ["Converter.convert"],
)
prop(
    "C14", "Units of inverse dimensionality convert through the reciprocal",
    "When the dimensionality of one unit is the inverse of the other's, a value converts to the reciprocal of that"
    " value expressed in the inverse unit, to within rounding; dimensionless units convert directly, never through"
    " the reciprocal.",
    ["inputs"], "every pair of units of inverse dimensionality and every non-zero value",
    "there is one reciprocal conversion in the tests.",
    ["_unit.py"],
    [("choice of direct or reciprocal", "_unit.py:Converter.__init__"),
     ("inverse dimensionality", "_unit.py:Dimensionality.inverted")],
    "property-based differential testing against exact rational arithmetic and the UDUNITS-2 C library",
    "Generated pairs of inverse dimensionality, with origins on either side." + CLIB + TRUST,
    ["Converter.convert"],
)
prop(
    "C15", "Conversions compose, and can be undone",
    "For mutually convertible units, converting from the first to the second and on to the third gives the same value"
    " as converting directly; converting there and back gives the value one started with; converting to the unit"
    " itself changes nothing. Conversion between units related by a scale alone is linear.",
    ["inputs"], "every triple of mutually convertible units and every value in range",
    "tests never chain conversions.",
    ["_unit.py", "_expr/sympy.py"],
    [("conversion", "_unit.py:Converter"), ("inversion of transformations", "_expr/sympy.py:invert_transform")],
    "metamorphic property-based testing (composition, inverse, identity, linearity)",
    "Relations between results of the code itself, over families of convertible units of all kinds." + TRUST,
    ["Converter.convert"],
)
prop(
    "C16", "An array converts element by element, and is left alone",
    "Converting a NumPy array gives an array of the same shape whose every element is what converting that element"
    " alone gives, for any shape, memory layout, byte order and real or integer type; the array passed in is not"
    " modified, nor does the result share its memory, and integers never overflow.",
    ["inputs"], "every array of every shape, layout and numeric type, for every kind of conversion",
    "tests convert one or two small float arrays.",
    ["_unit.py"],
    [("vectorised conversion", "_unit.py:Converter.convert"), ("compiled expression", "_unit.py:Converter.__init__")],
    "property-based testing: element-wise agreement with scalar conversion over generated arrays",
    "Generated arrays (dtype, order, strides, emptiness, special values); scalar conversion is the oracle, itself decided by C11-C14." + TRUST,
    ["Converter.convert"],
)
prop(
    "C17", "Units are equal exactly when they mean the same",
    "Two units compare equal if and only if their definitions expand to the same quantity (scale, origin,"
    " logarithm and basis units), however they are spelt; equality is reflexive, symmetric, transitive and"
    " consistent with '!=' and (where a unit has one) its hash, and a unit never equals something which is not a unit.",
    ["inputs"], "every pair of units with exactly representable definitions",
    "tests compare a handful of pairs.",
    ["_unit.py", "_expr/sympy.py"],
    [("comparison", "_unit.py:Unit.__eq__"), ("symbolic definition", "_unit.py:Unit._symbolic_definition")],
    "property-based testing against exact canonical forms",
    "Generated equal and nearly equal pairs; units whose factors are not exact in binary are left out of the"
    " 'if' direction." + TRUST,
    ["Unit.__eq__"],
)

exec(open(os.path.join(VERIF, "tools", "spec_more.py")).read())


def main():
    PROPERTIES.sort(key=lambda p: p["id"])
    CHECKS.sort(key=lambda c: c["property"])
    for p in PROPERTIES:
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPERTIES:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python tools/setup.py",
        "checks": CHECKS,
        "not_applicable": [],
        "notes": "See DESIGN.md. No hooks in /repo: everything is observed through the public API.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()

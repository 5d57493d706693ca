"""A reference model of a unit system which is built by hand, and the means to
build the real one alongside it."""

from __future__ import annotations

from fractions import Fraction

from . import gen as G, model as M, sut
from .harness import Violation


def shown(ref):
    """What a basis unit goes by."""
    return ref["name"][0] if ref.get("name") else ref["symbols"][0]


class Cycle(M.ModelError):
    pass


class Entry:
    def __init__(self, ref, definition, dimensionless=False, time=False):
        self.ref = ref
        self.definition = definition  # an expression, or None for a basis unit
        self.dimensionless = dimensionless
        self.time = time
        self.refs = None  # what its identifiers meant when it was first used


class System(M.Registry):
    def __init__(self):
        super().__init__()
        self.tables = {k: {} for k in ("name", "alias_name", "symbol", "alias_symbol")}
        self.prefixes = {"name": {}, "symbol": {}}
        self.basis = []
        self.first = False

    # -- registration

    def words(self, ref):
        out = []
        if ref.get("name"):
            out += [("name", w) for w in ref["name"] if w]
        out += [("symbol", w) for w in ref.get("symbols", [])]
        return out

    def clashes(self, ref):
        return any(w in self.tables[t] for t, w in self.words(ref))

    def add(self, entry):
        ref = entry.ref
        for t, w in self.words(ref):
            self.tables[t][w] = entry
        for pair in ref.get("alias_names", []):
            for w in pair:
                if w:
                    self.tables["alias_name"][w] = entry
        for w in ref.get("alias_symbols", []):
            self.tables["alias_symbol"][w] = entry
        if entry.definition is None:
            self.basis.append(entry)

    def add_prefix(self, name, value, symbols):
        self.prefixes["name"][name] = value
        for s in symbols:
            self.prefixes["symbol"][s] = value

    # -- look-up

    def own(self, word):
        for t in ("name", "alias_name", "symbol", "alias_symbol"):
            if word in self.tables[t]:
                return self.tables[t][word]
        return None

    def find(self, word):
        """(prefix value | None, Entry)"""
        entry = self.own(word)
        if entry is not None:
            return None, entry
        for kind in ("name", "symbol"):
            for n in range(len(word), -1, -1):
                if word[:n] in self.prefixes[kind]:
                    entry = self.own(word[n:])
                    if entry is not None:
                        return self.prefixes[kind][word[:n]], entry
        raise M.Unresolvable(word)

    # -- meaning, with the present registrations or those of the first use

    def shown(self, entry):
        return shown(entry.ref)

    def of_entry(self, entry, path=()):
        if entry.definition is None:
            return M.Lin(Fraction(1), {self.shown(entry): 1})
        if any(entry is e for e in path):
            raise Cycle("cycle")
        path = path + (entry,)
        if self.first:
            if entry.refs is None:
                refs, failed = {}, None
                for i in sorted(M.identifiers(entry.definition)):
                    try:
                        prefix, e = self.find(i)
                        self.of_entry(e, path)
                        refs[i] = (prefix, e)
                    except M.ModelError as err:
                        # The others may have been used before it was noticed.
                        failed = err
                if failed is not None:
                    raise failed
                entry.refs = refs
            refs = entry.refs
        else:
            refs = {i: self.find(i) for i in sorted(M.identifiers(entry.definition))}
        return _Meaning(self, refs, path).meaning(entry.definition)

    def cyclic(self, word):
        """Whether a cycle of definitions can be reached from a word, by what
        its definitions mean at present or meant at their first use."""

        def visit(entry, path):
            if any(entry is e for e in path):
                return True
            if entry.definition is None:
                return False
            nexts = [e for _, e in (entry.refs or {}).values()]
            for i in M.identifiers(entry.definition):
                try:
                    nexts.append(self.find(i)[1])
                except M.Unresolvable:
                    pass
            return any(visit(e, path + (entry,)) for e in nexts)

        try:
            return visit(self.find(word)[1], ())
        except M.Unresolvable:
            return False

    def word(self, word, path=()):
        return self._scaled(self.find(word), path)

    def _scaled(self, found, path):
        prefix, entry = found
        unit = self.of_entry(entry, path)
        if prefix is None:
            return unit
        if not isinstance(unit, M.Lin):
            raise M.ModelError("prefixed origin")
        return M.Lin(Fraction(M.number(prefix)) * unit.scale, unit.dims)

    def is_dimensionless_basis(self, name):
        return any(
            e.dimensionless for e in self.basis if self.shown(e) == name
        )

    def real(self, dims):
        return {k: v for k, v in dims.items() if not self.is_dimensionless_basis(k)}

    def time_name(self):
        return {self.shown(e) for e in self.basis if e.time}


class _Meaning(M.Registry):
    def __init__(self, system, refs, path):
        super().__init__()
        self.system, self.refs, self.path = system, refs, path

    def named(self, name):
        return self.system._scaled(self.refs[name], self.path)


# --------------------------------------------------------------------------
# The real thing


def reference(ref):
    from pyudunits2._unit_reference import Name, UnitReference

    name = ref.get("name")
    return UnitReference(
        name=Name(*name) if name else None,
        symbols=tuple(ref.get("symbols", [])),
        alias_names=tuple(Name(*n) for n in ref.get("alias_names", [])),
        alias_symbols=tuple(ref.get("alias_symbols", [])),
    )


def definition_text(ast):
    """An empty definition is the dimensionless unit one."""
    return "" if ast == ["num", "1"] else G.plain_text(ast)


def real_unit(system, entry):
    from pyudunits2 import BasisUnit
    from pyudunits2._unit_system import LazilyDefinedUnit

    names = reference(entry.ref)
    if entry.definition is None:
        return BasisUnit(
            names=names, dimensionless=entry.dimensionless, is_time_unit=entry.time
        )
    return LazilyDefinedUnit(
        unit_system=system, definition=definition_text(entry.definition), names=names
    )


def real_prefix(name, value, symbols):
    from pyudunits2._unit_reference import Prefix

    return Prefix(name=name, value=value, symbols=tuple(symbols))


class Shown(M.Registry):
    def named(self, name):
        return M.Lin(Fraction(1), {name: 1})


def observe(u):
    """(exact meaning over the basis, expanded text) of a real unit"""
    text = u.expanded()
    try:
        return Shown().meaning(M.parse(text)), text
    except M.ModelError as err:
        raise Violation(f"the expanded form {text!r} of {u} is meaningless: {err}")

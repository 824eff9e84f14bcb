"""What MANIFEST.json claims."""
TECH = "contract-based deductive verification of the real source (verification conditions generated from /repo on every run, z3)"
NOTE = "Every obligation of every contract is discharged for all inputs; the bounded search beside it is labelled bounded. "
CLAIMS = {
    "C01": ("proof", TECH, NOTE + "Assumes match attributes do not change while a match is in the collection."),
    "C02": ("proof", TECH, NOTE + "Assumes non-empty matches at non-negative positions."),
    "C03": ("proof", TECH, NOTE + "Assumes non-empty matches within the text, non-negative bounds."),
    "C04": ("proof", TECH, NOTE + "Assumes non-empty matches within the text."),
    "C05": ("proof", TECH, NOTE + "Assumes the library contract of copy.deepcopy, non-empty spans, and raw bounds not set apart (split)."),
    "C06": ("proof", TECH, NOTE + "Assumes str.find and str.lower behave as documented."),
    "C07": ("proof", TECH, NOTE + "Assumes the regular expression engine reports what it matches; results of user functions have one of the documented shapes."),
    "C08": ("proof", TECH, NOTE + "Assumes deterministic validators and formatters that do not raise."),
    "C09": ("proof", TECH, NOTE + "Assumes that a part reports its pieces in ascending order without overlap (one expression or literal per part), and a deterministic chain breaker."),
    "C10": ("proof", TECH, NOTE + "Assumes that a conflict solver names one of the two matches it is given, neither, or defers; overlapping matches are not empty."),
    "C11": ("proof", TECH, NOTE + "Assumes that patterns do not touch the collections of a search while it runs."),
    "C12": ("proof", TECH, NOTE + "Assumes the contracts of sorted, itertools.groupby and functools.reduce, and that no rule object is in the list twice."),
    "C13": ("proof", TECH, NOTE + "Assumes the response does not alias the internals of the collection."),
    "C14": ("proof", TECH, NOTE + "Assumes that overrides lists options that are given."),
    "C15": ("proof", TECH, NOTE + "Assumes values with a lawful equality, no two equal matches in a collection, and the answers of the typing module on annotations."),
    "C16": ("proof", TECH, NOTE + "Assumes isinstance and the order of strings as in Python."),
    "C17": ("proof", TECH, NOTE + "Assumes equality of patterns and rules consistent with their hash."),
    "C18": ("proof", TECH, NOTE + "Values are assumed to have a lawful equality."),
    "C19": ("proof", TECH, NOTE + "Assumes inspect.signature describes the callable."),
    "C20": ("proof", TECH, NOTE + "Assumes deterministic user functions that do not reach into the rebulk."),
}
NOT_APPLICABLE = {"C%02d" % n: "contracts in progress" for n in range(1, 21) if "C%02d" % n not in CLAIMS}

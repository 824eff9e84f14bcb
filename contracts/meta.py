"""What is trusted, what is only bounded, per property."""
TRUSTED = [
    "pyvc, the verification-condition generator of this framework (python semantics of the rewritten source; self-tests in selftest/)",
    "list theory axioms of pyvc/terms.py",
    "z3 (back end), cvc5 where used",
    "CPython's semantics of builtins and of collections.abc mixins (the mixins are verified from CPython's own source)",
]
ASSUME = {
    "C05": ["copy.deepcopy of a match is a new match with equal attributes", "crop spans are not empty", "split: the match lies within its text and its raw bounds are not set apart"],
    "C09": ["a part reports its pieces in ascending order, without overlap, none empty (one expression or literal per part)", "raw bounds of pieces are not set apart from their bounds by a processor",
            "the chain breaker is deterministic", "no part is twice in a chain; no match is handed out by two searches"],
    "C14": ["`overrides` is a list of names of options given in the same call", "values of options are not aliased with other dictionaries of the builder"],
}
BOUNDED = {
}

#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks there are and the reasons below."""

import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import props  # noqa: E402

NOTE = ("Decides the property's clauses on every abstract path of the current source, as listed in "
        "DESIGN.md. Loops are joined and unknown library values are opaque, so what depends on their "
        "values isn't decided; forms the interpreter doesn't know are recorded as undecided, not reported.")

TECH = {
    "C01": "static analysis: lockset and escape analysis by abstract interpretation of all File methods",
    "C02": "static analysis: typestate (open/closed) by abstract interpretation of all File methods, with an adversarial close at each lock acquisition",
    "C03": "static analysis: effect and typestate analysis of all File methods on a read only object",
    "C04": "static analysis: path-sensitive abstract interpretation of the constructor's open calls and their guards",
    "C05": "static analysis: abstract interpretation with a string length and alphabet domain of the header construction",
    "C06": "static analysis: event-sequence analysis (open, operation, close, delegation) of the convenience functions",
    "C07": "static analysis: ordering and taint analysis of path arguments in File methods",
    "C08": "static analysis: path-sensitive abstract interpretation of File operations over an abstract HDF5 tree",
    "C09": "static analysis: deletion-effect analysis of the dict and structured array writers over an abstract HDF5 tree",
    "C10": "static analysis: transition analysis of the option setters over all linked options",
    "C11": "static analysis: abstract interpretation of the option setters on values inside and outside their domains",
    "C12": "static analysis: abstract interpretation of collection histories against the documented lookup rule",
    "C13": "static analysis: consistency of the builtin type tables, evaluated from the marshallers' constructors",
    "C14": "static analysis: effect analysis (imports) of the lookups over abstract module states",
    "C15": "static analysis: abstract interpretation of writes of every kind of data, comparing the attribute table with the documented one",
    "C16": "static analysis: abstract interpretation of writes over targets with earlier attributes, comparing attribute tables",
    "C17": "static analysis: effect and path analysis of writes of data refused, comparing the abstract HDF5 tree",
    "C18": "static analysis: abstract interpretation of writes over the filter options, comparing the dataset creation and rewriting",
    "C19": "static analysis: effect analysis of reads over own and foreign abstract HDF5 trees",
    "C20": "static analysis: effect and alias analysis of writes over the objects given",
    "C30": "static analysis: abstract interpretation of the choice of marshaller over symbolic metadata",
    "C21": "static analysis: interprocedural taint analysis of the whole package from file contents to calls that execute or look up names",
    "C24": "static analysis: abstract interpretation of the escaping functions over words of character classes taken from the source",
    "C25": "static analysis: abstract interpretation of process_path over path component classes",
    "C22": "static analysis: abstract interpretation of writer and reader over symbolic data of each builtin type, comparing terms",
    "C23": "static analysis: abstract interpretation of dict writer and reader over symbolic keys and values, comparing terms",
    "C27": "static analysis: abstract interpretation of array writer and reader over a symbolic array domain (dtype, shape, memory order, element terms)",
    "C28": "static analysis: abstract interpretation of object array storage over a symbolic references group with adversarial random names",
    "C29": "static analysis: abstract interpretation of complex encoding and decoding over symbolic real and imaginary parts",
    "C31": "static analysis: abstract interpretation of string storage over code unit sequences of symbolic characters",
    "C32": "static analysis: abstract interpretation of overwriting histories over pairs of data kinds, comparing terms",
    "C33": "static analysis: abstract interpretation of histories of writes under two names, comparing terms",
    "C34": "static analysis: abstract interpretation of the File interface over path forms and an abstract HDF5 tree, comparing effects",
    "C35": "static analysis: abstract interpretation of writing symbolic data, comparing stored dtype, shape and elements with the documented conversions",
    "C36": "static analysis: abstract interpretation of writer and reader with different options over symbolic data, comparing terms",
    "C26": "static analysis: exception-containment analysis of plugin loading over abstract entry points",
}
DEFAULT_TECH = "static analysis: abstract interpretation of the package's source (no execution)"

NA = {
    "N02": "What MATLAB accepts isn't in this repository; the structural clauses are C05, C10, C13 and C15.",
    "N03": "Depends on what the HDF5 library has written when the process ends, nothing in this repository's source decides it.",
}


def main():
    ids = [json.loads(line)["id"] for line in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
    checks, na = [], []
    for i in ids:
        if i in props.CHECKS:
            checks.append({
                "property": i,
                "quick_cmd": "python3 check.py %s" % i,
                "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                "technique": getattr(props, "TECHNIQUE", {}).get(i, TECH.get(i, DEFAULT_TECH)),
                "level": "other",
                "level_note": NOTE,
            })
        else:
            na.append({"property": i, "reason": NA.get(i, "The check isn't built yet.")})
    m = {"version": 1, "setup_cmd": "python3 --version", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


main()

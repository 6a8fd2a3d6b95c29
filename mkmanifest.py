#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks."""
import json

NOTE = ("Trusts TLC, the projection of library values to specification values "
        "(harness/values.py) and the YANG renderer of the abstract schema; bounds are in DESIGN.md. ")
CLAIMED = {
    "C01": ("TLA+ zipper model checked exhaustively with TLC, model transitions replayed, recorded histories validated against it",
            "The specification is checked for all reachable nodes of a small schema; real histories on random schemas re-observe every earlier node after every operation."),
    "C02": ("TLA+ zipper model checked exhaustively with TLC, model transitions replayed, recorded histories validated against it",
            "Every transition of the specification is a candidate for replay; random histories, continued from isolated instances now and then, are judged event by event by TLC."),
    "C03": ("TLA+ specification of YANG merge checked with TLC, model transitions replayed, recorded merges validated against it",
            "Merges of random keyed/keyless data at random positions, raw and cooked, judged by TLC."),
    "C05": ("TLA+ specification of validity (Validate.tla) evaluated by TLC on recorded validations of generated schemas and trees",
            "Every recorded outcome must be explained by the set of violations the specification computes; random schemas and mutated trees within stated bounds."),
    "C06": ("TLA+ specification of validity (Validate.tla) evaluated by TLC on recorded validations of generated schemas and trees",
            "As C05 for semantic constraints, with must/leafref/unique/cardinality evaluated by the TLA+ XPath semantics."),
    "C07": ("TLA+ specification of default completion (Defaults.tla) evaluated by TLC on recorded completions",
            "The completed tree must equal the one computed by the specification, incl. tags and idempotence."),
    "C10": ("TLA+ denotational semantics of XPath 1.0 + YANG functions (XPath.tla) evaluated by TLC on recorded evaluations",
            "About 80% of generated expressions are determined by the specification; the others are only checked not to fail."),
    "C11": ("TLA+ specification of the XPath grammar as a parser (XPathGrammar.tla); TLC judges recorded parses, printed forms and values",
            "All token sequences up to length 3 (4 sampled when thorough), mutated and rendered expressions; the syntax tree of text and printed form must agree, and values must be those of the specified tree."),
    "C04": ("TLA+ specification of instance identifiers, resource identifiers, routes and what they denote (Ids.tla); TLC judges recorded printing, parsing, goto, peek and look_up on generated trees",
            "Identifiers are generated for all nodes in many spellings and mutated; both parsers are specified character by character."),
    "C17": ("explicit-state model checking of all chains over small sets of restrictions (MCTypes), each built in the real library, + TLA+ specification of written types, their elaboration and lexical/JSON/XML forms (TypeDefs.tla) by which TLC judges recorded loads and value conversions of generated type chains",
            "Random typedef chains over two modules with boundary and malformed restrictions and values; big numerals are computed in the specification."),
    "C08": ("explicit-state model checking of the TLA+ codec on all small documents (MCCodec), each read and written by the library, + JSON documents (conforming and corrupted) read and written by the library, every outcome judged by TLC against the TLA+ codec specification",
            "Codec.tla specifies the errors (with path) and the decoded value of every document and the exact document written; out-of-restriction values, redundant qualifiers and metadata outside RFC 7952 are left open."),
    "C09": ("explicit-state model checking of the TLA+ codec on all small documents (MCCodec), each read and written by the library, + XML documents in many spellings and XML written by the library, parsed with an independent namespace-aware parser and judged by TLC against the TLA+ codec specification",
            "Both directions plus reading back what was written; anydata and anyxml are outside of the XML code of the library (documented in its tests)."),
    "C21": ("explicit-state model checking of the TLA+ step machine of the command and of library conversion (MCCli) + recorded runs of both tools judged by TLC, with Library.tla and Validate.tla deciding whether libraries load and instances are valid",
            "Runs with every operation, broken files of all kinds, subschemas, pickled data models; usage errors are left to argparse. Renderings are compared with those of the API (their truth is C20). Conversion: libraries with several module sets, schemas and datastores; deviations that refer to modules of other module sets are invalid."),
    "C22": ("explicit-state model checking of the TLA+ codec with all small filters (MCCodec), each applied by the library, + filtered JSON and XML output, recorded hook calls, and metadata through edits, judged by TLC against the TLA+ codec specification",
            "Filters answer per hook and node; entries emptied by a filter are dropped from JSON output (pinned by the tests)."),
    "C18": ("recorded histories of validations over a shared data model validated against the history-free TLA+ specification",
            "Outcomes in a history must equal those on a freshly loaded model and be explained by Validate.tla; edited trees share value objects with the originals; validation counters are state of the specification."),
    "C19": ("explicit-state model checking of a TLA+ heap of structured values (MCValues) + histories of constructions, copies, changes and comparisons of real values validated by TLC against it",
            "Comparisons, hashes, memberships and contents in recorded histories must agree with Values.tla; scalars are chosen among those with equal native hashes or equal native values."),
    "C13": ("explicit-state model checking of TLA+ library loading in every order (MCLibrary) + random libraries and disks loaded under several hash seeds and entry orders, validated by TLC against it",
            "libraries of up to 5 modules with several revisions, submodules, import-only revisions, misplaced, misnamed, broken and missing files and malformed library data; resolution observed through typedefs and groupings tagged by file; left open: import cycles through import-only modules, clashes of submodule names, order of siblings"),
    "C20": ("explicit-state model checking of TLA+ addressing over all small schemas (MCAddress) + lookups, paths, trees and digests of random schemas, and digests of generated types, validated by TLC against it",
            "The schema is the one that Assemble.tla builds from the statements; Address.tla says what paths, lookups, the ASCII tree and the digest have to be. Nodes inside operations have schema paths only; qualifiers of their instance names are left open."),
    "C14": ("explicit-state model checking of TLA+ derivation over identity graphs (MCIdentities) + histories of queries, values, XPath functions and digests validated by TLC against it",
            "Answers in a history must be those of the history-free Identities.tla; listing of identities of import-only modules is left open."),
    "C12": ("TLA+ grammar and semantics of if-feature (Features.tla) model-checked against another definition (MCFeatures); recorded evaluations, loads with feature sets and schema trees of modules guarded by if-feature judged by TLC",
            "Expressions from a grammar with mutations, random prerequisites over modules and submodules; every guardable statement is guarded in generated modules (Assemble.tla)."),
    "C15": ("explicit-state model checking of a TLA+ specification of schema assembly (MCAssemble: equivalent rewritings of modules give the same tree) + schema trees of generated module sets compared by TLC with the specified tree",
            "Random module sets with submodules, import-only modules, nested groupings, refines, augments of augments and deviations; statements with missing targets and own prefixes in groupings are left open."),
    "C16": ("explicit-state model checking of a character-level TLA+ specification of YANG source text (MCYang: against a token-level grammar) + recorded parsing and searching of generated and mutated texts judged by TLC",
            "Random statement trees in all spellings (quoting, concatenation, comments, indentation, line ends), half of them mutated; positions of errors must lie in the offending token. Statements nested more than some hundred levels deep, tabs between other characters and a double quote, quotes inside unquoted strings and illegal characters are left open."),
}
NA = {}


def main():
    props = [json.loads(x) for x in open("properties.jsonl")]
    checks = []
    na = []
    for p in props:
        i = p["id"]
        if i in CLAIMED:
            t, n = CLAIMED[i][:2]
            checks.append({"property": i, "quick_cmd": f"./check {i}",
                           "thorough_cmd": f"./check {i} --thorough",
                           "technique": t, "level": "model_checking",
                           "level_note": n + " " + NOTE})
        else:
            na.append({"property": i, "reason": NA.get(i, "check not built yet")})
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
              open("MANIFEST.json", "w"), indent=1)


main()

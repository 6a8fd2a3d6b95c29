#!/usr/bin/env python3
"""Writes known_findings.json.  `key` identifies the specific failing input for
findings that are recorded but not repaired; fixed entries suppress nothing."""
import json
FINDINGS = []
FIXED = [
    ("C01,C03", "9895495", "merge modified the value of the receiver in place"),
    ("C03", "c51d765", "merge mixed up the entries of keyless lists instead of appending them"),
    ("C03", "c57182f", "merge on array entries failed for raw values and leaf-list entries; anyxml was not merged"),
    ("C02", "c523c28", "insert_after returned a node with the index of the entry before the new one"),
    ("C02", "6e10a7d", "put_member/__getitem__ with a redundant module qualifier stored the member under a second name"),
    ("C02,C04", "f5b40de", "look_up on a list entry raised AttributeError instead of InstanceValueError"),
    ("C10", "e049e2a", "XPath number/string/boolean conversions and comparisons deviated from XPath 1.0 (NaN, exponents, existential comparison, relational operators)"),
    ("C05,C06", "5fed484", "must and when expressions returning NaN counted as true"),
    ("C10", "56f192c", "positions in predicates of reverse and parent/self axes, name tests on parent and self"),
    ("C10", "3e707ec", "core functions substring, round, normalize-space, lang..., YANG functions, div by zero and mod"),
    ("C07,C05", "4095476", "defaults below false when of uses/augment/case, default case while a nested case is active, dummy nodes, metadata members"),
    ("C05,C06", "2377b45", "choice patterns (mandatory, nested, state), mandatory containers below cases, documented error tags"),
    ("C11,C10", "c568b99", "XPath tokenization (operator names, numbers, absolute paths), printing of expressions"),
    ("C17,C08,C10", "0cdcdaf", "enum/bit auto values, bits order, empty XML values, canonical decimals, range/length argument parsing and subset check, union canonical forms, deref on any node"),
    ("C05", "fe0d469", "non-presence container with mandatory configuration only was required in state-only data"),
    ("C06,C10", "2ac41da", "instance-identifier to a node with its default value in use was refused; comparing instance-identifiers of different shape raised AttributeError"),
    ("C11", "a1ab6cd", "axis and function names spelled with underscores (derived_from, descendant_or_self) were accepted"),
    ("C11,C10", "87d2f9b", "expressions with the attribute axis were accepted and evaluation failed with KeyError"),
    ("C17", "68172d6", "range and length bounds such as 1_0 or non-ASCII digits were accepted"),
    ("C17", "d1aad90", "derived enumerations and bits with new names or other numbers were accepted"),
    ("C17", "6b24748", "lengths above 2^32-1 were refused"),
    ("C17", "095b0e3", "strings with characters excluded by YANG were accepted"),
    ("C17,C08", "e6452d7", "base64 with excess padding was accepted"),
    ("C17", "5ff1c8f", "fraction-digits 0 and 19 were accepted"),
    ("C17", "e720692", "native decimals with too many fraction digits were accepted, NaN raised InvalidOperation"),
    ("C04", "b889016", "printed routes of entries with quotes, typed values, duplicates or missing keys denoted other nodes"),
    ("C04", "8bdbe2c", "identifiers not matching the tree raised AttributeError or found characters of strings; top-level names in choices were accepted without prefix; empty keys were refused"),
    ("C08", "a2321b4", "a JSON value other than a string for an instance-identifier raised TypeError"),
    ("C08,C22", "5f0a8dd", "metadata of list entries, leaf-list entries and the root, and typed metadata values were lost or written raw; JSON pointers after a metadata member were wrong; metadata that is no object crashed"),
    ("C09", "342c9c7", "prefixes of identities ignored the namespace declarations, instance-identifiers and identities in unions were written without them, attributes were not declared"),
    ("C19,C06,C03", "756a80f", "values were compared by hash only ([-1] == [-2]), objects with metadata were unhashable, true, 1 and 1.0 were the same value"),
    ("C14", "ccad45e", "derived_from() and derived_from_all() changed the identities they looked up: later answers lacked or gained identities"),
    ("C14", "12de3b9", "derivation through identities of import-only modules was lost"),
    ("C12", "c4c09af", "if-feature expressions: features named not... and 'not not x' were refused, separators around keywords were optional"),
    ("C15", "7efc740", "description in refine statements was ignored"),
    ("C15", "9cd03e5", "config true in refine and deviate statements did not override config false"),
    ("C15", "2edf883", "deviate delete never found the unique statement to be deleted"),
    ("C15", "374258f", "augments of nodes defined by augments processed later were silently ignored"),
    ("C15", "80d1534", "default in refine of a leaf-list was appended to the defaults"),
    ("C15", "550dfde", "deviate delete of leaf-list defaults removed nothing (typed value compared with text) or left an empty default"),
    ("C16", "d24661a", "unquoted strings swallowed a separator or brace after '/', and accepted '}' and '*/'"),
    ("C16", "ede2287", "top-level statements x:module were accepted"),
    ("C16", "40253a8", "unfinished comments and a stray '/' or CR after the module were accepted"),
    ("C16", "98438e5", "bad escapes raised InvalidArgument without position; many escapes hit the recursion limit"),
    ("C16", "fb61d25", "indentation and trailing white space in double-quoted strings were not trimmed"),
    ("C16", "2f555ba", "an unquoted string was accepted after \"\" + (an unquoted string cannot be concatenated)"),
    ("C20", "f8aebc2", "get_data_node('/') crashed and a path continuing below a leaf was looked up in the leaf's parent"),
    ("C20", "d250124", "data children of a node included nodes inside its rpcs, actions and notifications"),
    ("C20", "a474cd8", "data paths of rpcs ('///m:r') and names of notifications ('/')"),
    ("C20", "f12905a", "ascii_tree() crashed if only empty groups are under a node"),
    ("C20", "3ad5ee3", "names in conditional groups were always qualified in the ASCII tree"),
    ("C20", "d0f168c", "schema_digest() left out conditional operations and broke leaf-list defaults"),
    ("C20", "cb82773", "state_roots() crashed on anydata and anyxml"),
    ("C13", "698264e", "YANG library data without module-set-id or with values of wrong JSON types raised KeyError, TypeError or was accepted"),
    ("C13", "5b8c649", "imports could refer to submodules"),
    ("C13", "25d5f99", "order of module processing, and of schema nodes, depended on hash randomization"),
    ("C21", "f124ff2", "yangson crashed with exit status 1 on broken modules, cyclic imports, directories, broken pickles, undefined annotations, containers as subschemas; a failed dump exited with 0"),
    ("C21", "33e5268", "convert8525 crashed on libraries with deviations"),
    ("C21", "753a0b4", "convert8525 turned modules implemented in one module set and imported in another one into import-only ones"),
    ("C21", "0eccb74", "convert8525 crashed if the input is no library or not readable or the output not writable"),
    ("C21", "c8a75b6", "convert8525 reported a schema without module sets as nonexistent"),
    ("C20", "a77bd68", "split_instance_route() crashed on an empty route"),
    ("C05", "785fe0b", "a non-presence container with conditional mandatory descendants was always (or never) required"),
    ("C06", "021aa95", "require-instance true could not override the false of a derived-from type"),
    ("C13", "8c5f587", "the schema digest listed identities in an order that changed between runs"),
    ("C15", "58e9469", "the status of a grouping or augment was given to the using or augmented node (AttributeError at the top level)"),
    ("C05", "145da7d", "whether a status statement had effect depended on its place among the substatements"),
    ("C07", "1b563c9", "defaults were added for obsolete nodes, and obsolete cases were allowed"),
    ("C07", "338c1fb", "defaults of typedefs were resolved in the module using the type; those of leafrefs raised AttributeError"),
    ("C07", "6205c06", "prefixes in refined and deviated defaults were resolved in the module of the type"),
    ("C08", "9796fe0", "identities without module name in leafrefs were attributed to the module of the target; leafref chains failed depending on order"),
    ("C20", "3385eec", "the bits in the schema digest were shifted against their positions"),
    ("C02", "ac6feaf", "isolated instances: up, sibling, name and to_xml raised AttributeError; so did validate as long as there was no root instance"),
]
if __name__ == "__main__":
    json.dump({"findings": FINDINGS,
               "fixed": [f"fixed: property={p} {c} {w}" for p, c, w in FIXED]},
              open("known_findings.json", "w"), indent=1)

"""The table of rules: property -> deciding function, and what it does in words."""
from collections import namedtuple
import rules_schema as rs
import rules_reg as rr
import rules_env as re_
import rules_plugin as rp
import rules_err as rerr
import rules_total as rt

Rule = namedtuple("Rule", "fn technique rule explain note")
RULES = {}


def add(prop, fn, technique, rule, explain, note):
    RULES[prop] = Rule(fn, technique, rule, explain, note)


SCHEMA = ("Types, attributes and derived impls are read from the compiler (rustc driver over the current source); the "
          "schema they induce is compared with the reference table of published definitions in ref/schema.json, root by root.")
PROFILE = ("Every Validate impl is analysed by forward value-flow over its MIR, in collecting and in fail-fast "
           "mode; the set of checks, nested calls and their guards is compared with the reference table.")
REFNOTE = ("The published definitions are not in the sandbox: the reference table was generated from the audited tree "
           "and stands for them, so an error already in the tree is not seen.  rustc, the serde derive and the "
           "quick-xml/serde_json libraries are trusted.")

add("C04", rs.c04, "schema comparison over the type-checked program",
    "each root's element tree (names, nesting, order, occurrence, scalar kind) equals the reference", SCHEMA, REFNOTE)
add("C05", rs.c05, "schema comparison over the type-checked program",
    "each code list equals the reference, and reads and writes every code under the same text", SCHEMA, REFNOTE)
add("C06", rs.c06, "value-flow analysis over MIR against a constraint table",
    "each text element has exactly the reference length checks, over chars().count(), strict comparisons, guarded by presence only",
    PROFILE, REFNOTE)
add("C07", rs.c07, "value-flow analysis over MIR against a constraint table; regular-language comparison",
    "each text element has exactly the reference pattern checks, applied to the trimmed value and anchored at both ends",
    PROFILE, REFNOTE)
add("C08", rs.c08, "value-flow analysis over MIR",
    "each field whose type holds constraints is validated under presence (and the optional-fields switch) only; vectors item by item",
    PROFILE, REFNOTE)
add("C09", rs.c09, "value-flow analysis over MIR",
    "each pushed error's field is the element's wire name and its path the extension of the caller's path by it", PROFILE, REFNOTE)
add("C10", rs.c10, "value-flow analysis over MIR (versioned collector states)",
    "in fail-fast mode nothing is collected once an error exists and the first is critical; in collecting mode nothing stops or is critical",
    PROFILE, REFNOTE)
add("C11", rs.c11, "regular-language emptiness over declared constants",
    "each pattern parses in the regex crate's syntax, min <= max, and pattern and limits have a common value", PROFILE, REFNOTE)
add("C26", rs.c26, "schema inclusion over the type-checked program",
    "each header type's schema is carried by the envelope header's schema", SCHEMA, REFNOTE)
add("C27", rs.c27, "schema inclusion over the type-checked program",
    "each usage variant's schema is carried by the schema of the payload type its envelope decodes to", SCHEMA, REFNOTE)

FLOW = ("Every function involved is analysed by forward value-flow (abstract interpretation of its MIR with constants, access "
        "paths and texts of known shape) on described inputs: constants for accepted names, unknown atoms with stated exclusions "
        "for namespaces, white space and element content.  The resulting decision table is compared with what the property asks.")
IONOTE = ("Trusted: quick-xml and serde_json read and write derived types as documented, escape/unescape are inverse; texts "
          "considered hold no comments or CDATA sections.  The table of supported types is ref/registry.json.")
add("C01", rr.c01, "constant propagation and value-flow over MIR (decision tables of the lookups)",
    "the registry constant equals the reference table, names are unique, and every lookup gives the table's entry for each accepted spelling "
    "and the unknown answer for every other name", FLOW, IONOTE)
add("C02", re_.c02, "value-flow over MIR with texts of known shape; schema of the envelope type",
    "per type: to_xml writes the payload under its element, from_xml decodes that element with that payload type only, the JSON key and the "
    "namespace are the type's; unregistered elements are refused", FLOW, IONOTE)
add("C03", re_.c03, "value-flow over MIR with texts of known shape",
    "per type: xml_to_json_via_document decodes a bare Document with the envelope's payload type and returns it under Document and the type's "
    "element; unsupported identifiers are refused", FLOW, IONOTE)
add("C12", re_.c12, "schema comparison over the type-checked program; value-flow over MIR",
    "each type reads and writes every field under one name, skips only absent optionals and defaults nothing; values handed to and taken from "
    "the serialization library are the message's own, unmodified", SCHEMA + "  " + FLOW, IONOTE)
add("C13", re_.c13, "value-flow over MIR with texts of known shape (taint of element content)",
    "the written text is constants plus the serialized header and payload, each whole; every decoded text is the received element with its whole content",
    FLOW, IONOTE)
add("C14", re_.c14, "value-flow over MIR with texts of known shape (markup grammar)",
    "per type and choice of namespaces: the written text parses as declaration, Envelope, AppHdr, Document, payload element; from_xml of that text "
    "yields the same message", FLOW, IONOTE)
add("C25", rr.c25, "constant propagation and value-flow over MIR with texts and JSON values of known shape",
    "per type and spelling: peeking and detection give the type's short identifier in every layout; unknown or absent gives an error", FLOW, IONOTE)

STEPS = ("The body of each workflow step (the coroutine the compiler makes of it) is analysed by forward value-flow on described "
         "configurations and workflow messages (unknown maps with given entries, unknown texts and values); the step's result and the final "
         "state of the message are terms over those unknowns, compared with what the property asks for every path condition.")
STEPNOTE = ("Trusted: dataflow-rs, serde_json, chrono and datafake behave as their transfer functions in mx/models.py say; the library's own "
            "conversions are taken as uninterpreted operations here (their own rules decide them).")
add("C17", rp.c17, "value-flow analysis over MIR (frame condition of the failing paths)",
    "on every path that ends in an error the workflow message is the one the step was given (its cache mark aside)", STEPS, STEPNOTE)
add("C18", rp.c18, "value-flow analysis over MIR (frame condition of the succeeding paths)",
    "on every succeeding path data differs at the target only, metadata at the documented entry only, nothing else differs, and the cache is "
    "invalidated after the last write", STEPS, STEPNOTE)
add("C19", rp.c19, "value-flow analysis over MIR",
    "on every succeeding path: status 200, one change record with path data.<target>, the target's value before the step (null when absent) and "
    "the value stored now", STEPS, STEPNOTE)
add("C20", rp.c20, "constant propagation and value-flow over MIR (provenance of inputs)",
    "the step table is exact; configurations lacking a text parameter never succeed; every library operation's input stems from the named "
    "source alone and the result is at the named target", STEPS, STEPNOTE)
add("C21", rp.c21, "value-flow analysis over MIR (error propagation along path conditions)",
    "no path on which a fallible operation failed ends in success (validation: without an entry); the verdict is valid iff no entry is listed",
    STEPS, STEPNOTE)
add("C22", rp.c22, "value-flow analysis over MIR (comparison of acceptance conditions)",
    "parse step, validation step and stand-alone validation accept under the same conditions, and decode the same elements of texts of known "
    "shape with the same types", STEPS + "  " + FLOW, STEPNOTE)
add("C15", rt.c15, "enumeration of panicking constructs; value-flow analysis over MIR (offset provenance)",
    "every assert, diverging call and caller-tracked call of the library is enumerated; the functions reaching one are analysed, and a construct is "
    "a violation when input conditions alone reach it: an unwrapped failure, an index or byte offset that owes nothing to the text, a range whose "
    "end does not follow its start",
    "All MIR bodies of the library are scanned for constructs that may panic; every function from which one is reachable, and every workflow step in "
    "each described situation, is analysed by forward value-flow, which discharges those whose path conditions exclude the panic.",
    "A construct that is neither discharged nor certain is counted as undecided, not reported.  Panics inside the libraries called are seen through "
    "their caller-location marks only; derived implementations are trusted.")
add("C16", rt.c16, "call-graph and type-graph cycle analysis; decode-target query over the type-checked program",
    "no function of the library reaches itself, no type contains itself, XML is decoded into types of bounded depth only, the JSON reader's limit stays on",
    "The call graph of all MIR bodies (closures and callbacks included) and the containment graph of all types are searched for cycles; the type "
    "arguments of every decoding call are inspected.",
    "serde_json's own recursion limit (128) and quick-xml's iterative skipping of unknown elements are trusted.")
add("C23", rt.c23, "effect analysis over the type-checked program and MIR",
    "no static can change after it was made, write-once statics are made of constants, no clock, environment, file, network or randomness is read "
    "outside the stated places, the clock decides nothing, every exported type is Send and Sync",
    "All statics and their types, all calls of all MIR bodies and the auto traits of all exported types are inspected; the workflow steps are "
    "analysed by value-flow for where the clock's value goes.",
    "Log output is not counted as an effect.  The libraries called are trusted to be pure but for the operations listed.")
add("C24", rerr.c24, "value-flow analysis over MIR",
    "each conversion's and constructor's result is, part by part, the term the property asks for, on every path",
    "Every conversion, constructor and method of ValidationError, MxError, ParseResult, ErrorCollector and ParserConfig is analysed with unknown "
    "arguments; its result term and final state are compared with the specified ones.", "The Display texts are compared for the parts they must contain only.")

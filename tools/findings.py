#!/usr/bin/env python3
"""Regenerates known_findings.jsonl: the fixed entries carry the short hash of their commit in /repo."""
import json, subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# (property, unique part of the commit subject, what failed)
FIXED = [
    ("C09","clamp LSP positions","a position past the end of a line panicked or mapped to another line; a position inside a multi-unit character mapped between bytes"),
    ("C11","don't terminate the server on malformed","a notification with malformed parameters terminated the server"),
    ("C11","reject inverted and out-of-range","extractEvent with an inverted or out-of-range text range panicked"),
    ("C08","only treat trait paths","a trait path whose segment merely starts like a full path was used verbatim, giving a wrong selector"),
    ("C17","accept digit separators","integer arguments with digit separators (`selector = 1_0`) were rejected"),
    ("C17","read string attribute argument","string arguments written as raw strings or with escapes were read as their source text"),
    ("C17","validate arguments of a sibling","`#[ink::storage_item] #[ink::scale_derive(Encode)]` was reported as a conflict in ink! 5"),
    ('C19', 'resolve paths through nested modules', 'a trait or type referred to through nested inline modules was not found'),
    ('C01', 'terminate path resolution on cyclic', 'cyclic use declarations and type aliases overflowed the stack'),
    ('C20', 'consider all derive attributes', 'only the first derive attribute was considered when looking for SCALE codec traits'),
    ('C04', 'keep existing items when extending a derive', 'the quick fix that extends a derive attribute dropped its existing items or wrote `(, ..`'),
    ("C01", "completions whose insert offset", "completions in an incomplete attribute such as `#[ink ,] struct S;` panicked"),
    ("C01", "only parse a trailing token tree", "a token tree before the name or `=` of an argument, e.g. `#[ink(constructor, () ink)]`, panicked"),
    ("C02", "keep migration edits from overlapping", "deleting `use ink_e2e::build_message;` in a migration also deleted whitespace in which the same migration inserts an import"),
    ("C03", "include nested meta items' delimiters", "edits for an attribute with nested arguments left a stray delimiter behind"),
    ("C03", "keep the semicolon when removing a trait function's body", "removing a trait function's body produced a function without `;`"),
    ("C03", "only move functions, and only to inherent", "'Move item' edits moved items other than functions into impl blocks, or functions into trait impl blocks"),
    ("C03", "don't repeat parentheses when completing", "completing `#[ink` before existing parentheses repeated them"),
    ("C03", "insert topic fields where a field can be", "'Add ink! topic' inserted a field at places where no field can be"),
    ("C03", "only add the crate-level attribute with a contract", "'Add ink! contract' wrote an inner crate attribute after items"),
    ("C05", "don't suggest ink! arguments where the enclosing", "ink! arguments were suggested for items whose enclosing ink! item allows none"),
    ("C05", "don't suggest namespace for trait impl blocks", "`namespace` was suggested for trait impl blocks"),
    ("C05", "don't suggest an ink! macro's arguments for other", "arguments of an ink! macro were suggested inside other attributes of the same item"),
    ("C05", "look past qualifiers and other attributes", "completions in an unclosed attribute were computed for the wrong item when it is qualified or has other attributes"),
    ("C05", "don't suggest ink! attributes for items that can't", "ink! attributes were suggested for items that they can't annotate"),
    ("C12", "only defer code action edits if codeAction/resolve", "code actions were deferred to codeAction/resolve for clients to which it was not advertised"),
    ("C12", "only resolve event extraction edits if the client", "event extraction was resolved to a file creation for clients that can't create files"),
    ("C12", "only request the migration edit if the client", "workspace/applyEdit was sent to clients that don't support it"),
    ("C12", "advertise the extract code action kind", "`refactor.extract` actions were returned but not advertised"),
    ("C03", "insert items after inner attributes", "'Add ink! ..' inserted items before a module's inner attributes or doc comments"),
    ("C14", "extract events from selections in their fields' attributes", "a selection in the attribute of an event's field extracted nothing"),
    ("C15", "keep project names that contain the template's", "a project name that contains `my_contract` or `MyContract` was mangled in the generated source"),
    ("C15", "reject project names that don't give", "names such as `fn` or `a-` gave projects that don't compile"),
    ("C14", "extract events into packages with unique", "extraction reused the name of an existing package, or a name that is no package name"),
    ("C16", "match ink! version requirements exactly", "any requirement that contains a 5, e.g. `4.3.5`, was taken for ink! 5"),
    ("C16", "find the workspace root of workspace", "an inherited dependency was not found if the workspace table is in the same manifest or beyond an unrelated manifest"),
    ("C18", "show the constructor's selector type", "in ink! 5 the hint for a constructor's selector in a separate attribute showed the type of a message's selector"),
    ("C18", "only show attribute signatures that are valid", "signature help listed definitions that the item's scope doesn't allow, e.g. `extension` in a contract"),
    ("C22", "ignore comments in paths when resolving", "a comment or line break inside a path changed whether it resolves"),
    ("C22", "ignore comments around attribute argument values", "a comment next to an attribute argument's value made it invalid"),
    ("C22", "ignore whitespace and comments in derived trait paths", "a derived trait was not recognised if its path contains whitespace or comments"),
    ("C22", "accept whitespace and comments after a trailing comma", "whitespace or a comment after an argument list's trailing comma was reported as an empty argument"),
    ("C22", "report missing trait messages and arguments in source order", "missing messages were listed in hash order, so two runs on the same text differed"),
    ("C22", "exclude surrounding trivia from the range of invalid", "the range of an invalid argument value included surrounding whitespace and comments"),
    ("C22", "accept whitespace and comments in empty attribute argument lists", "`#[ink( )]` was reported differently from `#[ink()]`"),
    ("C22", "make the order of scale_derive migration edits deterministic", "the traits in a migrated scale_derive attribute were in hash order"),
    ("C03", "don't insert a second comma when adding an argument", "adding an argument after a trailing comma and whitespace inserted a second comma"),
    ("C22", "ignore nested whitespace and comments when comparing signatures", "a comment inside a type made an implemented message's signature differ from its definition"),
    ("C23", "resolve unqualified aliases", "type alias chains and crate aliases were not resolved"),
    ("C23", "resolve paths with multiple super qualifiers", "`super::super::X` was not resolved"),
    ("C23", "match trait implementations to the type they're for", "an implementation for another type of the same name counted"),
    ("C23", "recognize traits via qualified paths to re-exports", "a trait named through a module that re-exports it was not recognised"),
    ("C04", "order modules from the outermost in item paths", "quick fixes that refer to an item in nested modules wrote the modules innermost first"),
    ("C13", "only replace the ink! attributes of migrated events", "text like `#[ink(event)]` in an event's docs or fields was rewritten by the migration"),
    ("C13", "migrate calls in conditions, guards, loop iterables", "calls in conditions, guards, loop iterables and let-else blocks were not migrated"),
    ("C13", "don't remove the same delimiter twice in migrations", "removing two neighbouring arguments or imports gave overlapping edits"),
    ("C13", "don't add instantiate_v1 calls that are already present", "migrating twice added `.instantiate_v1()` twice"),
    ("C13", "migrate calls nested in arguments of migrated calls", "`derive(TypeInfo,)` became `derive()`; `x.y().invoke_contract(..)` of unrelated types was renamed"),
    ("C13", "keep migrated manifests valid", "the migrated manifest had a version next to `workspace = true`, or features of removed dependencies"),
]
# Genuine defects recorded rather than repaired: (property, signature, what fails). See DESIGN.md.
RECV = ("self-receiver quick fix on a message that already has a by-value or typed `self` parameter",
        "'Add (im)mutable self reference receiver' inserts `&self` next to an existing `self` parameter, e.g. `fn f(self)` -> `fn f(&selfself)` (the inserted text is pinned by the existing tests)")
KNOWN = [("C03", *RECV), ("C04", *RECV),
    ("C12", "code action literals for a client that only supports commands",
     "textDocument/codeAction answers with CodeAction literals even for clients without `codeActionLiteralSupport`, which only understand Command results"),
    ("C14", "extract action for an event outside any module",
     "'Extract ink! event into a standalone package' is offered for an event that is not inside a module (pinned by the existing tests), but nothing is extracted there"),
    ("C13", "e2e test migrated twice", "migrating an e2e test a second time adds `<Client: E2EBackend>` and the backend imports again (in migrate/e2e_test.rs, which may not be changed here)"),
    ("C13", "e2e backend trait already imported", "migrating an e2e test imports a backend trait that is already in scope"),
    ("C13", "method of another receiver in an e2e test", "in an e2e test, `other.balance(x)`, `other.call(a, b, 0, None)` and `other.upload(a, b, None)` are migrated as if they were methods of the client"),
    ("C13", "deprecated call in the arguments of a deprecated call", "in an e2e test, a deprecated call in the arguments of another one is not migrated, or the edits overlap")]
log = subprocess.run(["git", "-C", os.environ.get("REPO", "/repo"), "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
with open(os.path.join(ROOT, "known_findings.jsonl"), "w") as f:
    for p, k, w in FIXED:
        h = [l.split()[0] for l in log if k in l]
        assert len(h) == 1, (k, h)
        f.write(json.dumps({"kind": "fixed", "property": p, "commit": h[0], "what": w, "line": f"fixed: property={p} {h[0]} {w}"}) + "\n")
    for p, sig, w in KNOWN:
        f.write(json.dumps({"kind": "finding", "property": p, "sig": sig, "what": w}) + "\n")

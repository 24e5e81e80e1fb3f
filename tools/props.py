#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, **kw):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None),
      _m=kw))

GLLT = "gen/golang/gll/parser.go"
BSRT = "gen/golang/gll/bsr/bsr.go"
prop("C01", "Generated GLL parsers accept exactly the language of the grammar",
 "For every grammar gogll accepts (left recursive, ambiguous, cyclic, nullable or not), the generated GLL parser terminates without panicking on every token string and accepts it if and only if the string is in the language of the grammar. It returns a parse forest and no errors when it accepts, and no forest and at least one error when it rejects.",
 ["programs", "inputs"], "every context-free grammar, every finite token string",
 "The repository parses about ten fixed sentences of four small grammars; language equality needs all grammars and all strings, and bugs hide in recursion, nullability and lookahead combinations no sample contains.",
 [GLLT, "gen/golang/gll/codex.go", "gen/golang/gll/testselect.go", "gslot/gslot.go", "frstflw/frstflw.go"],
 [("descriptor worklist, call return forest, popped set", GLLT), ("code per grammar slot with first/follow tests", "gen/golang/gll/codex.go")],
 ["parser.Parse of the generated package: (set, errors)"], check="recog",
 tech="exhaustive small-scope exploration of the generated parsers against a CFG derivability model",
 note="Every grammar up to a size bound and every token string up to a length bound; both the generator and its output are the real code. Trusts the span-fixpoint model (package cf) and the Go toolchain.")
prop("C02", "The GLL parse forest contains exactly the derivations of the input",
 "After a successful GLL parse the subtrees reached from the roots through the documented forest functions are sound and complete: for each nonterminal occurrence the chains of adjacent children are exactly the ways the input span can be derived. No subtree is listed twice, terminal children are the tokens at their positions, and the single-child functions return the only child and fail if there are more.",
 ["programs", "inputs"], "every grammar, every input in its language, every node of the forest",
 "The tests walk one or two forests of fixed inputs; completeness of the forest depends on how derivations of one span overlap, which only shows for particular ambiguous bodies and inputs.",
 [BSRT, GLLT, "gen/golang/gll/slots/slots.go"],
 [("binary subtree set indexed by nonterminal span and by symbol string", BSRT), ("walk over symbol strings from the right", BSRT)],
 ["bsr.Set.GetRoots, GetRoot", "BSR.GetNTChildrenI, GetNTChildI, GetNTChild, GetAllNTChildren, GetTChildI, Alternate, extents"], check="forest",
 tech="exhaustive small-scope exploration of forests against the set of all derivations of the model",
 note="Compares complete derivation sets, node by node, for every grammar and input in the bound. Derivations are compared per node as (alternate, cut vector), which determines the (possibly infinite) tree set.")
prop("C03", "Ambiguity is reported exactly when the input has several derivations",
 "For every accepted input the parse forest reports itself ambiguous if and only if the input has more than one derivation tree, including infinitely many. The test terminates on every forest, cyclic ones included.",
 ["programs", "inputs"], "every grammar, every input in its language",
 "Tests ask the question for two inputs; a missed ambiguity silently gives the user an arbitrary parse, and shows only for bodies whose derivations differ in one inner split.",
 [BSRT, "main.go"],
 [("search for a node with other than one child", BSRT)],
 ["bsr.Set.IsAmbiguous"], check="ambig",
 tech="exhaustive small-scope exploration against derivation counting in the model",
 note="Same bounds as C02; the model decides ambiguity from the full derivation relation.")
prop("C04", "SPPF extraction represents exactly the derivations of the input",
 "The shared packed parse forest built from a successful parse has one symbol node per nonterminal span that occurs in a derivation, and its packed and intermediate nodes spell out each derivation of that span exactly once. Extents and pivots are consistent along every edge, every terminal leaf matches the input, and no node exists twice: derivations share them.",
 ["programs", "inputs"], "every grammar, every input in its language, every node and edge",
 "No test checks an SPPF; the repository only contains two pictures of one.",
 [BSRT, "gen/golang/gll/sppf/sppf.go"],
 [("worklist of extendable leaf nodes; node tables keyed by label", BSRT)],
 ["bsr.Set.ToSPPF and the exported fields of the sppf nodes"], check="sppf",
 tech="exhaustive small-scope exploration of SPPFs against the set of all derivations of the model",
 note="Structural check of every node reachable from the root plus equality of derivation sets per symbol node.")
prop("C05", "GLL parse errors locate the first token that cannot continue the input",
 "When a GLL parse fails, errors are sorted from the last input position to the first, and the first one names the token (and its line and column) after the longest prefix of the input that some sentence of the grammar starts with. No error lists the offending token as expected, every error lists at least one token that really can follow the tokens before it, and for grammars without nullable nonterminals the errors at the first position together list all such tokens.",
 ["programs", "inputs"], "every grammar, every input outside its language",
 "The tests never look at parse errors of generated parsers.",
 [GLLT, "gen/golang/gll/codex.go", "gen/golang/gll/testselect.go"],
 [("error recorded at each failed select or follow test, sorted by position", GLLT)],
 ["[]*parser.Error returned by Parse: Token, Line, Column, Expected, order"], check="errors",
 tech="exhaustive small-scope exploration against viable prefixes and their continuations in the model",
 note="Expected sets are checked against exact continuations; with nullable nonterminals only the sound direction is claimed, because LL lookahead uses FOLLOW sets.")
exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        q = {k: v for k, v in p.items() if k != "_m"}
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
man = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[],
  notes="Every check builds gogll from /repo's working tree into a scratch directory, runs it on exhaustively enumerated inputs, compiles what it generates and compares it with reference models. See DESIGN.md.")
for p in P:
    m = p["_m"]
    if "na" in m:
        man["not_applicable"].append(dict(property=p["id"], reason=m["na"]))
        continue
    man["checks"].append(dict(property=p["id"], quick_cmd="bash check.sh %s" % p["id"], thorough_cmd="bash check.sh %s" % p["id"],
      evidence_file="evidence/%s.json" % p["id"], technique=m["tech"], level=m.get("level", "model_checking"), level_note=m["note"]))
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

"""Further planted changes (see seeds2.py)."""
import sys
sys.argv, argv = sys.argv[:1] + ["-"], sys.argv
exec(open(__file__.replace("seeds3", "seeds2")).read().split('\nseed("')[0])
sys.argv = argv
XML = """#!/bin/bash
# Runs scram on a small model and compares the probability of the top event.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf -- "$tmp"' EXIT
mkdir -p "$tmp/bin" "$tmp/share/scram"
cp /repo/_build/bin/scram "$tmp/bin/"
cp /repo/share/*.rng "$tmp/share/scram/"
export LD_LIBRARY_PATH=/repo/_build/lib/scram
timeout 60 "$tmp/bin/scram" %s --probability "$here/model.xml" -o "$tmp/out.xml"
got="$(grep '<sum-of-products name="top"' "$tmp/out.xml" | grep -o 'probability="[^"]*"')"
echo "$got"
test "$got" = 'probability="%s"'
"""


def model(id, prop, needs, breaks, edits, xml, args, p):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    make(id, prop, needs, breaks, edits, {"model.xml": xml}, XML % (args, p))
    print(id)


seed("c10-xor-sign", "C10", "analysis", "full normalization of an XOR gate with two complement arguments", "XOR of two complements becomes their disjunction with a wrong sign",
     [("src/preprocessor.cc", "  gate_one->NegateArg(*it);\n  gate->ShareArg(*it, gate_two);", "  if (*it > 0)\n    gate_one->NegateArg(*it);\n  gate->ShareArg(*it, gate_two);")], secs=15)
seed("c10-not-mark", "C10", "analysis", "a NOT gate below a gate that is no AND, OR gate", "a negation is dropped when a gate is normalized",
     [("src/preprocessor.cc", "    case kNot:\n      assert(gate->args().size() == 1);\n      gate->type(kNull);", "    case kNot:\n      assert(gate->args().size() == 1);\n      if (full && gate->parents().size() > 2)\n        gate->NegateArgs();\n      gate->type(kNull);")], secs=15)
seed("c20-scan-quote", "C20", "xml", "an attribute value whose only special character is the quote", "a quote alone is not escaped",
     [("src/xml_stream.h", "          case '\"':\n            return true;\n", "            return true;\n")], secs=5)
seed("c20-nested-text", "C20", "xml", "text added to an element other than the root after its child has ended", "mixed content is accepted below the root",
     [("src/xml_stream.h", "    if (accept_text_)\n      accept_text_ = false;\n    if (accept_attributes_) {\n      accept_attributes_ = false;\n      out_ << \">\\n\";", "    if (accept_text_ && !parent_)\n      accept_text_ = false;\n    if (accept_attributes_) {\n      accept_attributes_ = false;\n      out_ << \">\\n\";")], secs=5)
seed("c20-failed-root", "C20", "xml", "a document whose first root was refused for its empty name", "a refused root counts as the root",
     [("src/xml_stream.h", "    StreamElement element(name, &indenter_, &out_);\n    has_root_ = true;\n    return element;", "    has_root_ = true;\n    StreamElement element(name, &indenter_, &out_);\n    return element;")], secs=5)
seed("c20-amp", "C20", "xml", "a value that holds the text of an entity", "an ampersand before a hash is taken for a character reference",
     [("src/xml_stream.h", "            out_ << \"&amp;\";", "            out_ << (value[1] == '#' ? \"&\" : \"&amp;\");")], secs=5)
model("c09-ccf-complement", "C09", "the complement of a basic event in a CCF group", "the complement is lost when the event is replaced by its CCF gate",
      [("src/pdag.cc", "AddArg(parent, event.ccf_gate(), complement, ccf, nodes);", "AddArg(parent, event.ccf_gate(), complement && !ccf, ccf, nodes);")],
      """<?xml version="1.0"?>
<opsa-mef><define-fault-tree name="t"><define-gate name="top"><and><not><basic-event name="a"/></not><basic-event name="c"/></and></define-gate>
<define-gate name="other"><or><basic-event name="a"/><basic-event name="b"/></or></define-gate>
<define-CCF-group name="g" model="beta-factor"><members><basic-event name="a"/><basic-event name="b"/></members>
<distribution><float value="0.2"/></distribution><factor level="2"><float value="0.1"/></factor></define-CCF-group></define-fault-tree>
<model-data><define-basic-event name="c"><float value="0.5"/></define-basic-event></model-data></opsa-mef>
""", "--bdd --ccf", "0.4018")
model("c09-house-complement", "C09", "the complement of a house event in its false state", "the complement of a false house event is false",
      [("src/pdag.cc", "null_gate->AddArg(constant_, complement ^ !event.state());", "null_gate->AddArg(constant_, complement || !event.state());")],
      """<?xml version="1.0"?>
<opsa-mef><define-fault-tree name="t"><define-gate name="top"><and><not><house-event name="h"/></not><basic-event name="c"/></and></define-gate>
<define-house-event name="h"><constant value="false"/></define-house-event></define-fault-tree>
<model-data><define-basic-event name="c"><float value="0.5"/></define-basic-event></model-data></opsa-mef>
""", "--bdd", "0.5")

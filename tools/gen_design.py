#!/usr/bin/env python3
"""Writes the generated section of DESIGN.md (between the markers) from properties.jsonl, the evidence of the last run,
MANIFEST.json, the notes below and the meta.json files of the planted bugs."""
import json, os, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 "C01": "The fields are symbolic, so one path covers all 2^96 headers; tests read constants.",
 "C02": "Known defect found and repaired: `body.len() as u32 + 12` wrapped (d7eac81).",
 "C03": "Found and repaired: the write position was overwritten instead of advanced (c2dbd14).",
 "C04": "Bounds: none; the loop head state (how much of the current frame was read) is a linear invariant found by the fixpoint.",
 "C05": "Found and repaired: seqpacket datagrams above the limit were delivered truncated (af7813f).",
 "C06": "Found and repaired: announced lengths below 12 (422d3e6).",
 "C07": "A first version demanded one fixed order of the checks inside one function; what counts is only whether bytes were handed over or the message was consumed. `WriteZero`-like outcomes of the socket are errors of the socket.",
 "C08": "A first version demanded that every control message is a descriptor list; other kinds may be ignored. Found and repaired: the descriptor limits were not enforced (0776c5b).",
 "C12": "Found and repaired: removal without closing (52c35e3).",
 "C13": "Found and repaired: messages queued before the close were still written (1599dcb).",
 "C15": "When all handles are gone, reporting the duplicate has no receiver; the rule accepts that the peer then stops.",
 "C18": "Found and repaired: the request was closed before its response was written (837e6b7).",
 "C20": "The end condition of the loop is evaluated semantically (the values of counter and flag for which the loop stops), so `== 0`, `> 0`, `<= 0` and matches are the same.",
 "C22": "Found and repaired: the ID of the rejected request stayed registered (cf1e082).",
 "C30": "Found and repaired: one failed `info()` ended the loop (3a4009b).",
 "C31": "Found and repaired: a symbolic link to a socket was deleted (3143e88). The window between the look at the path and the removal cannot be closed by this code and is not part of the property.",
 "C40": "An alarm on the unchanged tree showed that `!=` on joined symbolic service IDs was decided too eagerly; the engine was corrected.",
 "C33": "The first version compared values without their types and accepted a default configuration in place of the given one; a planted mutant showed it. A path or a wrapper made of the address is followed by value.",
 "C45": "`service_id` of a generated handle may also return the declared ID itself, since a handle is only made for requests of its own service.",
 "C80": "Found and repaired: the length function ignored the offset of the message in the segment, so every message after the first of a segment was cut with the length of the first; the UDP dissector used an undefined variable. Conditions that depend on the traffic, and loops, make the check give up (they do not occur).",
 "C62": "Found and repaired: Debug of RecvMessageError named two variants wrongly. Paths on which the formatter itself fails print less and are left out.",
 "C41": "Found and repaired: the reserved ID -1 was accepted (5521859). Three items of the same name make the macro panic, which is a (poor) compile error, not an accepted interface. This rule does not argue over all interfaces: it is a witness matrix (scope x kind of clash x positions x spelling x attributes), which is what compile-fail witnesses can do for a procedural macro.",
 "C50": "Found and repaired: `PeerCloseHandle` was only `Clone` for `Clone` bodies (b4ce20d). The first text of the property covered the futures of `connect` and `bind` too; those are boxed without `Send`, the documentation does not promise it, and for TCP it would need `Send` addresses, so the property was corrected.",
 "C51": "Features are resolved by cargo without the dev-dependency of the crate on itself, which is what hides missing `cfg`s from the test suite.",
}
def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    tech = {c["property"]: c for c in man["checks"]}
    na = {c["property"]: c["reason"] for c in man["not_applicable"]}
    seeds = {}
    for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        m = json.load(open(f)); seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
    out = []
    for p in props:
        i = p["id"]
        out.append(f"### {i}: {p['title']}\n")
        if i in na:
            out.append(f"Not applicable. {na[i]}\n"); continue
        ev = json.load(open(os.path.join(HERE, "evidence", i + ".json")))
        c = ev["coverage"]
        out.append(f"*Technique:* {tech[i]['technique']}. {tech[i]['level_note']}\n")
        out.append(f"*Rule:* {c['explanation']}\n")
        x = f"*Extent:* {c['obligations']} obligations ({c['distinct_obligations']} distinct)"
        if c["functions_analysed"]: x += f" over {c['functions_analysed']} functions, {c['basic_blocks_interpreted']} basic blocks interpreted"
        out.append(x + f"; about {max(1, round(ev['wall_s']))} s. *Not sampled by tests because:* {p['why_tests_cant']}\n")
        if i in NOTES: out.append(f"*Notes:* {NOTES[i]}\n")
        if i in seeds: out.append("*Planted bugs:* " + "; ".join(f"`{n}` ({m['what_it_breaks'].rstrip('.')})" for n, m in seeds[i]) + ".\n")
    p = os.path.join(HERE, "DESIGN.md"); s = open(p).read()
    a, b = "<!-- generated by tools/gen_design.py -->\n", "<!-- end of generated part -->\n"
    body = a + "\n" + "\n".join(out) + "\n" + b
    if a in s: s = s[:s.index(a)] + body + s[s.index(b) + len(b):]
    else: s = s.rstrip("\n") + "\n\n" + body
    open(p, "w").write(s)
main()

"""Two tables, written to harness/src/umath.rs, which is committed.

UMATH: characters, command names and classes of the unicode-math package, as the project's own
documentation (docs/unicode-math-table.html) reproduces them.

DICT: the operator dictionary of MathML Core (compact form), typed in from the specification."""
import html
import html.entities
import re

# W3C MathML Core, appendix "Operator dictionary", compact form.
DICT = {
    ("A", "infix"): "2190-2195 219A-21AE 21B0-21B5 21B9 21BC-21D5 21DA-21F0 21F3-21FF 2794 2799 279B-27A1 27A5-27A6 27A8-27AF 27B1 27B3 27B5 27B8 27BA-27BE 27F0-27F1 27F4-27FF 2900-2920 2934-2937 2942-2975 297C-297F 2B04-2B07 2B0C-2B11 2B30-2B3E 2B40-2B4C 2B60-2B65 2B6A-2B6D 2B70-2B73 2B7A-2B7D 2B80-2B87 2B95 2BA0-2BAF 2BB8",
    ("B", "infix"): "2B 2D B1 F7 322 2044 2212-2216 2227-222A 2236 2238 228C-228E 2293-2296 2298 229D-229F 22BB-22BD 22CE-22CF 22D2-22D3 2795-2797 29B8 29BC 29C4-29C5 29F5-29FB 2A1F-2A2E 2A38-2A3A 2A3E 2A40-2A4F 2A51-2A63 2ADB 2AF6 2AFB 2AFD",
    ("C", "infix"): "25 2A 2E 3F-40 5E B7 D7 323 32E 2022 2043 2217-2219 2240 2297 2299-229B 22A0-22A1 22BA 22C4-22C7 22C9-22CC 2305-2306 27CB 27CD 29C6-29C8 29D4-29D7 29E2 2A1D-2A1E 2A2F-2A37 2A3B-2A3D 2A3F 2A50 2A64-2A65 2ADC-2ADD 2AFE",
    ("D", "prefix"): "21 2B 2D AC B1 331 2018 201C 2200-2201 2203-2204 2207 2212-2213 221F-2222 2234-2235 223C 22BE-22BF 2310 2319 2795-2796 27C0 299B-29AF 2AEC-2AED",
    ("E", "postfix"): "21-22 25-27 60 A8 B0 B2-B4 B8-B9 2CA-2CB 2D8-2DA 2DD 311 320 325 327 331 2019-201B 201D-201F 2032-2037 2057 20DB-20DC 23CD",
    ("F", "prefix"): "28 5B 7B-7C 2016 2308 230A 2329 2772 27E6 27E8 27EA 27EC 27EE 2980 2983 2985 2987 2989 298B 298D 298F 2991 2993 2995 2997 2999 29D8 29DA 29FC",
    ("G", "postfix"): "29 5D 7C-7D 2016 2309 230B 232A 2773 27E7 27E9 27EB 27ED 27EF 2980 2984 2986 2988 298A 298C 298E 2990 2992 2994 2996 2998 2999 29D9 29DB 29FD",
    ("H", "prefix"): "222B-2233 2A0B-2A1C",
    ("I", "postfix"): "5E-5F 7E AF 2C6-2C7 2C9 2CD 2DC 2F7 302 203E 2322-2323 23B4-23B5 23DC-23E1",
    ("J", "prefix"): "220F-2211 22C0-22C3 2A00-2A0A 2A1D-2A1E 2AFC 2AFF",
    ("K", "infix"): "2F 5C 5F 2061-2064 2206",
    ("L", "prefix"): "2145-2146 2202 221A-221C",
    ("M", "infix"): "2C 3A-3B",
}


# Commands that are in neither table, or whose name stands for something else there (LaTeX, amssymb
# and stmaryrd know them by the first of these characters; the HTML entity of the name is another).
OVERRIDE = dict(x.rsplit(":", 1) for x in """
Darr:⇓ Larr:⇐ Rarr:⇒ Uarr:⇑ Harr:⇔ lrarr:↔ lrArr:⇔ Lrarr:⇔ Join:⋈ models:⊨ npreceq:⋠ nsucceq:⋡ vartriangle:△
bull:∙ bullet:∙ circ:∘ Diamond:◊ blacksquare:■ blacktriangle:▲ blacktriangledown:▼ empty:∅ emptyset:∅
epsilon:ϵ varepsilon:ε phi:ϕ varphi:φ hearts:♡ diamonds:♢ triangle:△ triangledown:▽ circledR:Ⓡ imath:ı jmath:ȷ
Yleft:⤙ Yright:⤚ botdoteq:⩦ dashleftarrow:⇠ dashrightarrow:⇢ gets:← to:→ gggtr:⋙ llless:⋘ iddots:⋰ leadsto:⇝
lhd:⊲ rhd:⊳ unlhd:⊴ unrhd:⊵ lightning:↯ neq:≠ nlessgt:≸ owns:∋ restriction:↾ vcentcolon:∶ doublecap:⋒
doublecup:⋓ land:∧ lor:∨ lnot:¬ minuso:⦵ |:‖ Box:◻ Complex:ℂ N:ℕ R:ℝ Reals:ℝ Z:ℤ alef:ℵ ascnode:☊ cnums:ℂ
copyright:© natnums:ℕ pounds:£ rupee:₹ varDelta:Δ varGamma:Γ varLambda:Λ varOmega:Ω varPhi:Φ varPi:Π varPsi:Ψ
varSigma:Σ varTheta:Θ varUpsilon:Υ varXi:Ξ lVert:‖ rVert:‖ lvert:| rvert:| llbracket:⟦ rrbracket:⟧
bigdoublevee:⨈ bigdoublewedge:⨇ P:¶ S:§ dag:† ddag:‡ degree:° lq:‘ rq:’
""".split())
LISTS = "RELATION FORCE_RELATION BINARY_OP FORCE_BINARY_OP ORD FORCE_ORD LETTER OPEN FORCE_OPEN CLOSE FORCE_CLOSE OP FORCE_PUNCTUATION LETTER_TEXT SYM_TEXT".split()


def named(um):
    """(command, character) for the commands in the vocabulary."""
    cm = dict(re.findall(r"pub static (\w+): &\[&str\] = &\[(.*?)\];", open("harness/src/cmds.rs").read(), re.S))
    for n in sorted({n for l in LISTS for n in re.findall(r'"([^"]+)"', cm[l])}):
        c = OVERRIDE.get(n) or um.get(n) or html.entities.html5.get(n + ";")
        if c:
            yield n, c


def chars(t):
    for r in t.split():
        a, _, b = r.partition("-")
        yield from range(int(a, 16), int(b or a, 16) + 1)


def main():
    s = open("/repo/docs/unicode-math-table.html").read()
    rows = re.findall(r'<tr>\s*<td>(.*?)</td>\s*<td>.*?</td>\s*<td class="char">(.*?)</td>\s*<td>U\+(.*?)</td>\s*<td>(.*?)</td>', s)
    with open("harness/src/umath.rs", "w") as f:
        f.write("//! Generated by tools/gen_umath.py; do not edit.\n\n")
        f.write("/// (character, command, class)\n#[rustfmt::skip]\npub static UMATH: &[(char, &str, &str)] = &[\n")
        for name, _, cp, cl in rows:
            name = html.unescape(name)
            assert name[0] == "\\"
            f.write(f"    ('\\u{{{int(cp, 16):x}}}', \"{name[1:]}\", \"{cl}\"),\n")
        um = {html.unescape(n)[1:]: chr(int(cp, 16)) for n, _, cp, cl in rows if cl != "accent"}
        f.write("];\n\n/// (command, the character it stands for)\n#[rustfmt::skip]\npub static NAMED: &[(&str, &str)] = &[\n")
        for n, c in named(um):
            e = "".join(f"\\u{{{ord(x):x}}}" for x in c)
            f.write(f"    (\"{n}\", \"{e}\"),\n")
        f.write("];\n\n/// (first, last, category, form)\n#[rustfmt::skip]\npub static DICT: &[(u32, u32, char, &str)] = &[\n")
        for (cat, form), t in DICT.items():
            for r in t.split():
                a, _, b = r.partition("-")
                f.write(f"    (0x{a.lower()}, 0x{(b or a).lower()}, '{cat}', \"{form}\"),\n")
        f.write("];\n")


if __name__ == "__main__":
    main()

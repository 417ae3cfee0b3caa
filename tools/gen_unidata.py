"""Tables taken from the Unicode character database that ships with Python (not from math-core):
the mathematical alphanumeric symbols, and the compositions with U+0338 COMBINING LONG SOLIDUS OVERLAY.
Writes harness/src/unidata.rs, which is committed."""
import unicodedata as U

STYLES = [  # longest names first
    ("MATHEMATICAL SANS-SERIF BOLD ITALIC", "SansBoldItalic"),
    ("MATHEMATICAL SANS-SERIF BOLD", "SansBold"),
    ("MATHEMATICAL SANS-SERIF ITALIC", "SansItalic"),
    ("MATHEMATICAL SANS-SERIF", "Sans"),
    ("MATHEMATICAL BOLD ITALIC", "BoldItalic"),
    ("MATHEMATICAL BOLD SCRIPT", "BoldScript"),
    ("MATHEMATICAL BOLD FRAKTUR", "BoldFraktur"),
    ("MATHEMATICAL BOLD", "Bold"),
    ("MATHEMATICAL ITALIC", "Italic"),
    ("MATHEMATICAL SCRIPT", "Script"),
    ("MATHEMATICAL FRAKTUR", "Fraktur"),
    ("MATHEMATICAL DOUBLE-STRUCK", "DoubleStruck"),
    ("MATHEMATICAL MONOSPACE", "Mono"),
    ("DOUBLE-STRUCK ITALIC", None),
    ("DOUBLE-STRUCK", "DoubleStruck"),
    ("BLACK-LETTER", "Fraktur"),
    ("SCRIPT", "Script"),
    ("PLANCK CONSTANT", "Italic"),
]
table = {}
for cp in list(range(0x1D400, 0x1D800)) + list(range(0x2100, 0x2150)):
    c = chr(cp)
    d = U.decomposition(c)
    if not d.startswith("<font>"):
        continue
    base = chr(int(d.split()[1], 16))
    name = U.name(c)
    if name == "PLANCK CONSTANT OVER TWO PI":
        continue
    for prefix, style in STYLES:
        if name.startswith(prefix):
            if style and (base, style) not in table:
                table[base, style] = c
            break
# The four small letters of the Letterlike block that have no slot of their own in the Mathematical
# Alphanumeric Symbols block come from there; SCRIPT SMALL L does have one.
assert table["l", "Script"] == "\U0001d4c1"
neg = {}
for cp in range(0x20, 0x3000):
    n = U.normalize("NFC", chr(cp) + "\u0338")
    if len(n) == 1 and U.normalize("NFC", chr(cp)) == chr(cp):
        neg[chr(cp)] = n
with open("harness/src/unidata.rs", "w") as f:
    f.write("//! Generated by tools/gen_unidata.py from the Unicode character database; do not edit.\n\n")
    f.write("/// (base, style, character)\n#[rustfmt::skip]\npub static ALPHANUM: &[(char, &str, char)] = &[\n")
    for (b, s), c in sorted(table.items(), key=lambda x: (x[0][1], x[0][0])):
        f.write(f"    ('\\u{{{ord(b):x}}}', \"{s}\", '\\u{{{ord(c):x}}}'),\n")
    f.write("];\n\n/// (character, the character it composes to with U+0338)\n#[rustfmt::skip]\npub static NEGATED: &[(char, char)] = &[\n")
    for b, c in sorted(neg.items()):
        f.write(f"    ('\\u{{{ord(b):x}}}', '\\u{{{ord(c):x}}}'),\n")
    f.write("];\n")

"""Writes spec/Unicode.tla: property names of the dialect, and category and script of the characters the drivers use.
Categories come from Python's unicodedata; scripts of these few characters are written down here."""
import os, re, unicodedata

NAMES = """C Cc Cf Cn Co L Ll Lm Lo Lt Lu M Mc Me Mn N Nd Nl No P Pc Pd Pe Pf Pi Po Ps S Sc Sk Sm So Z Zl Zp Zs
Adlam Ahom Anatolian_Hieroglyphs Arabic Armenian Avestan Balinese Bamum Bassa_Vah Batak Bengali Bhaiksuki Bopomofo Brahmi
Braille Buginese Buhid Canadian_Aboriginal Carian Caucasian_Albanian Chakma Cham Cherokee Chorasmian Common Coptic Cuneiform
Cypriot Cypro_Minoan Cyrillic Deseret Devanagari Dives_Akuru Dogra Duployan Egyptian_Hieroglyphs Elbasan Elymaic Ethiopic
Georgian Glagolitic Gothic Grantha Greek Gujarati Gunjala_Gondi Gurmukhi Han Hangul Hanifi_Rohingya Hanunoo Hatran Hebrew
Hiragana Imperial_Aramaic Inherited Inscriptional_Pahlavi Inscriptional_Parthian Javanese Kaithi Kannada Katakana Kayah_Li
Kharoshthi Khitan_Small_Script Khmer Khojki Khudawadi Lao Latin Lepcha Limbu Linear_A Linear_B Lisu Lycian Lydian Mahajani
Makasar Malayalam Mandaic Manichaean Marchen Masaram_Gondi Medefaidrin Meetei_Mayek Mende_Kikakui Meroitic_Cursive
Meroitic_Hieroglyphs Miao Modi Mongolian Mro Multani Myanmar Nabataean Nandinagari New_Tai_Lue Newa Nko Nushu Ogham Ol_Chiki
Old_Hungarian Old_Italic Old_North_Arabian Old_Permic Old_Persian Old_Sogdian Old_South_Arabian Old_Turkic Old_Uyghur Oriya
Osage Osmanya Pahawh_Hmong Palmyrene Pau_Cin_Hau Phags_Pa Phoenician Psalter_Pahlavi Rejang Runic Samaritan Saurashtra
Sharada Shavian Siddham SignWriting Sinhala Sogdian Sora_Sompeng Soyombo Sundanese Syloti_Nagri Syriac Tagalog Tagbanwa
Tai_Le Tai_Tham Tai_Viet Takri Tamil Tangsa Tangut Telugu Thaana Thai Tibetan Tifinagh Tirhuta Toto Ugaritic Vai Vithkuqi
Wancho Warang_Citi Yezidi Yi Zanabazar_Square""".split()

POOL = "".join(map(chr, range(0, 128))) + "èéÈÉ\u017f\u212aΔδ€中😀\u00a0\u0085\u2028\u00b2\u0661\u2160" \
    "\u00ad\u0301\u0903\u20dd\u02b0\u203f\u2014«»\u2029\ue000←\u0378"

# further characters, used where no case folding is involved
EXTRA = "ªµºßÿÀ×÷¿¼½１２ａＡжЖאअก한あア٣०\u200b\u200c\u200d\u2060\ufeff\u1680\u2000\u2003\u202f\u205f\u3000\u009f\u00b7"


def script(c):
    for chars, name in (("ªºßÿÀａＡ", "Latin"), ("жЖ", "Cyrillic"), ("א", "Hebrew"), ("अ०", "Devanagari"), ("ก", "Thai"), ("한", "Hangul"),
                        ("あ", "Hiragana"), ("ア", "Katakana"), ("٣", "Arabic"), ("\u200c\u200d", "Inherited"), ("\u1680", "Ogham")):
        if c in chars:
            return name
    if c in "Δδ":
        return "Greek"
    if c == "中":
        return "Han"
    if c in "\u0301\u20dd":
        return "Inherited"
    if c == "\u0661":
        return "Arabic"
    if c == "\u0903":
        return "Devanagari"
    if c in "èéÈÉ\u017f\u212a\u2160\u02b0" or (c.isascii() and c.isalpha()):
        return "Latin"
    if c in "\ue000\u0378":
        return "Unknown"
    return "Common"


def main():
    cps = lambda s: "<<" + ",".join(str(ord(c)) for c in s) + ">>"
    by = {}
    for c in POOL + EXTRA:
        by.setdefault((unicodedata.category(c), script(c)), []).append(ord(c))
    out = ["-------------------------------- MODULE Unicode --------------------------------",
           "(* Written by tools/gen_unicode.py. *)", "EXTENDS Integers, Sequences", "",
           "PropNames == <<" + ",\n  ".join(f'<<"{n}", {cps(n)}>>' for n in NAMES) + ">>", "",
           "(* <<general category, its first letter, script, characters>> *)",
           "CharTable == <<" + ",\n  ".join(f'<<"{g}", "{g[0]}", "{s}", {{{", ".join(map(str, cs))}}}>>'
                                            for (g, s), cs in sorted(by.items())) + ">>", "",
           "KnownChars == UNION {CharTable[i][4] : i \\in 1..Len(CharTable)}",
           "HasProp(name, c) == \\E i \\in 1..Len(CharTable) : c \\in CharTable[i][4] /\\ name \\in {CharTable[i][1], CharTable[i][2], CharTable[i][3]}",
           "================================================================================="]
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "Unicode.tla"), "w") as h:
        h.write("\n".join(out) + "\n")


if __name__ == "__main__":
    main()

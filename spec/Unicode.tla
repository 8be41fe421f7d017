-------------------------------- MODULE Unicode --------------------------------
(* Written by tools/gen_unicode.py. *)
EXTENDS Integers, Sequences

PropNames == <<<<"C", <<67>>>>,
  <<"Cc", <<67,99>>>>,
  <<"Cf", <<67,102>>>>,
  <<"Cn", <<67,110>>>>,
  <<"Co", <<67,111>>>>,
  <<"L", <<76>>>>,
  <<"Ll", <<76,108>>>>,
  <<"Lm", <<76,109>>>>,
  <<"Lo", <<76,111>>>>,
  <<"Lt", <<76,116>>>>,
  <<"Lu", <<76,117>>>>,
  <<"M", <<77>>>>,
  <<"Mc", <<77,99>>>>,
  <<"Me", <<77,101>>>>,
  <<"Mn", <<77,110>>>>,
  <<"N", <<78>>>>,
  <<"Nd", <<78,100>>>>,
  <<"Nl", <<78,108>>>>,
  <<"No", <<78,111>>>>,
  <<"P", <<80>>>>,
  <<"Pc", <<80,99>>>>,
  <<"Pd", <<80,100>>>>,
  <<"Pe", <<80,101>>>>,
  <<"Pf", <<80,102>>>>,
  <<"Pi", <<80,105>>>>,
  <<"Po", <<80,111>>>>,
  <<"Ps", <<80,115>>>>,
  <<"S", <<83>>>>,
  <<"Sc", <<83,99>>>>,
  <<"Sk", <<83,107>>>>,
  <<"Sm", <<83,109>>>>,
  <<"So", <<83,111>>>>,
  <<"Z", <<90>>>>,
  <<"Zl", <<90,108>>>>,
  <<"Zp", <<90,112>>>>,
  <<"Zs", <<90,115>>>>,
  <<"Adlam", <<65,100,108,97,109>>>>,
  <<"Ahom", <<65,104,111,109>>>>,
  <<"Anatolian_Hieroglyphs", <<65,110,97,116,111,108,105,97,110,95,72,105,101,114,111,103,108,121,112,104,115>>>>,
  <<"Arabic", <<65,114,97,98,105,99>>>>,
  <<"Armenian", <<65,114,109,101,110,105,97,110>>>>,
  <<"Avestan", <<65,118,101,115,116,97,110>>>>,
  <<"Balinese", <<66,97,108,105,110,101,115,101>>>>,
  <<"Bamum", <<66,97,109,117,109>>>>,
  <<"Bassa_Vah", <<66,97,115,115,97,95,86,97,104>>>>,
  <<"Batak", <<66,97,116,97,107>>>>,
  <<"Bengali", <<66,101,110,103,97,108,105>>>>,
  <<"Bhaiksuki", <<66,104,97,105,107,115,117,107,105>>>>,
  <<"Bopomofo", <<66,111,112,111,109,111,102,111>>>>,
  <<"Brahmi", <<66,114,97,104,109,105>>>>,
  <<"Braille", <<66,114,97,105,108,108,101>>>>,
  <<"Buginese", <<66,117,103,105,110,101,115,101>>>>,
  <<"Buhid", <<66,117,104,105,100>>>>,
  <<"Canadian_Aboriginal", <<67,97,110,97,100,105,97,110,95,65,98,111,114,105,103,105,110,97,108>>>>,
  <<"Carian", <<67,97,114,105,97,110>>>>,
  <<"Caucasian_Albanian", <<67,97,117,99,97,115,105,97,110,95,65,108,98,97,110,105,97,110>>>>,
  <<"Chakma", <<67,104,97,107,109,97>>>>,
  <<"Cham", <<67,104,97,109>>>>,
  <<"Cherokee", <<67,104,101,114,111,107,101,101>>>>,
  <<"Chorasmian", <<67,104,111,114,97,115,109,105,97,110>>>>,
  <<"Common", <<67,111,109,109,111,110>>>>,
  <<"Coptic", <<67,111,112,116,105,99>>>>,
  <<"Cuneiform", <<67,117,110,101,105,102,111,114,109>>>>,
  <<"Cypriot", <<67,121,112,114,105,111,116>>>>,
  <<"Cypro_Minoan", <<67,121,112,114,111,95,77,105,110,111,97,110>>>>,
  <<"Cyrillic", <<67,121,114,105,108,108,105,99>>>>,
  <<"Deseret", <<68,101,115,101,114,101,116>>>>,
  <<"Devanagari", <<68,101,118,97,110,97,103,97,114,105>>>>,
  <<"Dives_Akuru", <<68,105,118,101,115,95,65,107,117,114,117>>>>,
  <<"Dogra", <<68,111,103,114,97>>>>,
  <<"Duployan", <<68,117,112,108,111,121,97,110>>>>,
  <<"Egyptian_Hieroglyphs", <<69,103,121,112,116,105,97,110,95,72,105,101,114,111,103,108,121,112,104,115>>>>,
  <<"Elbasan", <<69,108,98,97,115,97,110>>>>,
  <<"Elymaic", <<69,108,121,109,97,105,99>>>>,
  <<"Ethiopic", <<69,116,104,105,111,112,105,99>>>>,
  <<"Georgian", <<71,101,111,114,103,105,97,110>>>>,
  <<"Glagolitic", <<71,108,97,103,111,108,105,116,105,99>>>>,
  <<"Gothic", <<71,111,116,104,105,99>>>>,
  <<"Grantha", <<71,114,97,110,116,104,97>>>>,
  <<"Greek", <<71,114,101,101,107>>>>,
  <<"Gujarati", <<71,117,106,97,114,97,116,105>>>>,
  <<"Gunjala_Gondi", <<71,117,110,106,97,108,97,95,71,111,110,100,105>>>>,
  <<"Gurmukhi", <<71,117,114,109,117,107,104,105>>>>,
  <<"Han", <<72,97,110>>>>,
  <<"Hangul", <<72,97,110,103,117,108>>>>,
  <<"Hanifi_Rohingya", <<72,97,110,105,102,105,95,82,111,104,105,110,103,121,97>>>>,
  <<"Hanunoo", <<72,97,110,117,110,111,111>>>>,
  <<"Hatran", <<72,97,116,114,97,110>>>>,
  <<"Hebrew", <<72,101,98,114,101,119>>>>,
  <<"Hiragana", <<72,105,114,97,103,97,110,97>>>>,
  <<"Imperial_Aramaic", <<73,109,112,101,114,105,97,108,95,65,114,97,109,97,105,99>>>>,
  <<"Inherited", <<73,110,104,101,114,105,116,101,100>>>>,
  <<"Inscriptional_Pahlavi", <<73,110,115,99,114,105,112,116,105,111,110,97,108,95,80,97,104,108,97,118,105>>>>,
  <<"Inscriptional_Parthian", <<73,110,115,99,114,105,112,116,105,111,110,97,108,95,80,97,114,116,104,105,97,110>>>>,
  <<"Javanese", <<74,97,118,97,110,101,115,101>>>>,
  <<"Kaithi", <<75,97,105,116,104,105>>>>,
  <<"Kannada", <<75,97,110,110,97,100,97>>>>,
  <<"Katakana", <<75,97,116,97,107,97,110,97>>>>,
  <<"Kayah_Li", <<75,97,121,97,104,95,76,105>>>>,
  <<"Kharoshthi", <<75,104,97,114,111,115,104,116,104,105>>>>,
  <<"Khitan_Small_Script", <<75,104,105,116,97,110,95,83,109,97,108,108,95,83,99,114,105,112,116>>>>,
  <<"Khmer", <<75,104,109,101,114>>>>,
  <<"Khojki", <<75,104,111,106,107,105>>>>,
  <<"Khudawadi", <<75,104,117,100,97,119,97,100,105>>>>,
  <<"Lao", <<76,97,111>>>>,
  <<"Latin", <<76,97,116,105,110>>>>,
  <<"Lepcha", <<76,101,112,99,104,97>>>>,
  <<"Limbu", <<76,105,109,98,117>>>>,
  <<"Linear_A", <<76,105,110,101,97,114,95,65>>>>,
  <<"Linear_B", <<76,105,110,101,97,114,95,66>>>>,
  <<"Lisu", <<76,105,115,117>>>>,
  <<"Lycian", <<76,121,99,105,97,110>>>>,
  <<"Lydian", <<76,121,100,105,97,110>>>>,
  <<"Mahajani", <<77,97,104,97,106,97,110,105>>>>,
  <<"Makasar", <<77,97,107,97,115,97,114>>>>,
  <<"Malayalam", <<77,97,108,97,121,97,108,97,109>>>>,
  <<"Mandaic", <<77,97,110,100,97,105,99>>>>,
  <<"Manichaean", <<77,97,110,105,99,104,97,101,97,110>>>>,
  <<"Marchen", <<77,97,114,99,104,101,110>>>>,
  <<"Masaram_Gondi", <<77,97,115,97,114,97,109,95,71,111,110,100,105>>>>,
  <<"Medefaidrin", <<77,101,100,101,102,97,105,100,114,105,110>>>>,
  <<"Meetei_Mayek", <<77,101,101,116,101,105,95,77,97,121,101,107>>>>,
  <<"Mende_Kikakui", <<77,101,110,100,101,95,75,105,107,97,107,117,105>>>>,
  <<"Meroitic_Cursive", <<77,101,114,111,105,116,105,99,95,67,117,114,115,105,118,101>>>>,
  <<"Meroitic_Hieroglyphs", <<77,101,114,111,105,116,105,99,95,72,105,101,114,111,103,108,121,112,104,115>>>>,
  <<"Miao", <<77,105,97,111>>>>,
  <<"Modi", <<77,111,100,105>>>>,
  <<"Mongolian", <<77,111,110,103,111,108,105,97,110>>>>,
  <<"Mro", <<77,114,111>>>>,
  <<"Multani", <<77,117,108,116,97,110,105>>>>,
  <<"Myanmar", <<77,121,97,110,109,97,114>>>>,
  <<"Nabataean", <<78,97,98,97,116,97,101,97,110>>>>,
  <<"Nandinagari", <<78,97,110,100,105,110,97,103,97,114,105>>>>,
  <<"New_Tai_Lue", <<78,101,119,95,84,97,105,95,76,117,101>>>>,
  <<"Newa", <<78,101,119,97>>>>,
  <<"Nko", <<78,107,111>>>>,
  <<"Nushu", <<78,117,115,104,117>>>>,
  <<"Ogham", <<79,103,104,97,109>>>>,
  <<"Ol_Chiki", <<79,108,95,67,104,105,107,105>>>>,
  <<"Old_Hungarian", <<79,108,100,95,72,117,110,103,97,114,105,97,110>>>>,
  <<"Old_Italic", <<79,108,100,95,73,116,97,108,105,99>>>>,
  <<"Old_North_Arabian", <<79,108,100,95,78,111,114,116,104,95,65,114,97,98,105,97,110>>>>,
  <<"Old_Permic", <<79,108,100,95,80,101,114,109,105,99>>>>,
  <<"Old_Persian", <<79,108,100,95,80,101,114,115,105,97,110>>>>,
  <<"Old_Sogdian", <<79,108,100,95,83,111,103,100,105,97,110>>>>,
  <<"Old_South_Arabian", <<79,108,100,95,83,111,117,116,104,95,65,114,97,98,105,97,110>>>>,
  <<"Old_Turkic", <<79,108,100,95,84,117,114,107,105,99>>>>,
  <<"Old_Uyghur", <<79,108,100,95,85,121,103,104,117,114>>>>,
  <<"Oriya", <<79,114,105,121,97>>>>,
  <<"Osage", <<79,115,97,103,101>>>>,
  <<"Osmanya", <<79,115,109,97,110,121,97>>>>,
  <<"Pahawh_Hmong", <<80,97,104,97,119,104,95,72,109,111,110,103>>>>,
  <<"Palmyrene", <<80,97,108,109,121,114,101,110,101>>>>,
  <<"Pau_Cin_Hau", <<80,97,117,95,67,105,110,95,72,97,117>>>>,
  <<"Phags_Pa", <<80,104,97,103,115,95,80,97>>>>,
  <<"Phoenician", <<80,104,111,101,110,105,99,105,97,110>>>>,
  <<"Psalter_Pahlavi", <<80,115,97,108,116,101,114,95,80,97,104,108,97,118,105>>>>,
  <<"Rejang", <<82,101,106,97,110,103>>>>,
  <<"Runic", <<82,117,110,105,99>>>>,
  <<"Samaritan", <<83,97,109,97,114,105,116,97,110>>>>,
  <<"Saurashtra", <<83,97,117,114,97,115,104,116,114,97>>>>,
  <<"Sharada", <<83,104,97,114,97,100,97>>>>,
  <<"Shavian", <<83,104,97,118,105,97,110>>>>,
  <<"Siddham", <<83,105,100,100,104,97,109>>>>,
  <<"SignWriting", <<83,105,103,110,87,114,105,116,105,110,103>>>>,
  <<"Sinhala", <<83,105,110,104,97,108,97>>>>,
  <<"Sogdian", <<83,111,103,100,105,97,110>>>>,
  <<"Sora_Sompeng", <<83,111,114,97,95,83,111,109,112,101,110,103>>>>,
  <<"Soyombo", <<83,111,121,111,109,98,111>>>>,
  <<"Sundanese", <<83,117,110,100,97,110,101,115,101>>>>,
  <<"Syloti_Nagri", <<83,121,108,111,116,105,95,78,97,103,114,105>>>>,
  <<"Syriac", <<83,121,114,105,97,99>>>>,
  <<"Tagalog", <<84,97,103,97,108,111,103>>>>,
  <<"Tagbanwa", <<84,97,103,98,97,110,119,97>>>>,
  <<"Tai_Le", <<84,97,105,95,76,101>>>>,
  <<"Tai_Tham", <<84,97,105,95,84,104,97,109>>>>,
  <<"Tai_Viet", <<84,97,105,95,86,105,101,116>>>>,
  <<"Takri", <<84,97,107,114,105>>>>,
  <<"Tamil", <<84,97,109,105,108>>>>,
  <<"Tangsa", <<84,97,110,103,115,97>>>>,
  <<"Tangut", <<84,97,110,103,117,116>>>>,
  <<"Telugu", <<84,101,108,117,103,117>>>>,
  <<"Thaana", <<84,104,97,97,110,97>>>>,
  <<"Thai", <<84,104,97,105>>>>,
  <<"Tibetan", <<84,105,98,101,116,97,110>>>>,
  <<"Tifinagh", <<84,105,102,105,110,97,103,104>>>>,
  <<"Tirhuta", <<84,105,114,104,117,116,97>>>>,
  <<"Toto", <<84,111,116,111>>>>,
  <<"Ugaritic", <<85,103,97,114,105,116,105,99>>>>,
  <<"Vai", <<86,97,105>>>>,
  <<"Vithkuqi", <<86,105,116,104,107,117,113,105>>>>,
  <<"Wancho", <<87,97,110,99,104,111>>>>,
  <<"Warang_Citi", <<87,97,114,97,110,103,95,67,105,116,105>>>>,
  <<"Yezidi", <<89,101,122,105,100,105>>>>,
  <<"Yi", <<89,105>>>>,
  <<"Zanabazar_Square", <<90,97,110,97,98,97,122,97,114,95,83,113,117,97,114,101>>>>>>

(* <<general category, its first letter, script, characters>> *)
CharTable == <<<<"Cc", "C", "Common", {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 127, 133, 159}>>,
  <<"Cf", "C", "Common", {173, 8203, 8288, 65279}>>,
  <<"Cf", "C", "Inherited", {8204, 8205}>>,
  <<"Cn", "C", "Unknown", {888}>>,
  <<"Co", "C", "Unknown", {57344}>>,
  <<"Ll", "L", "Common", {181}>>,
  <<"Ll", "L", "Cyrillic", {1078}>>,
  <<"Ll", "L", "Greek", {948}>>,
  <<"Ll", "L", "Latin", {97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 232, 233, 383, 223, 255, 65345}>>,
  <<"Lm", "L", "Latin", {688}>>,
  <<"Lo", "L", "Devanagari", {2309}>>,
  <<"Lo", "L", "Han", {20013}>>,
  <<"Lo", "L", "Hangul", {54620}>>,
  <<"Lo", "L", "Hebrew", {1488}>>,
  <<"Lo", "L", "Hiragana", {12354}>>,
  <<"Lo", "L", "Katakana", {12450}>>,
  <<"Lo", "L", "Latin", {170, 186}>>,
  <<"Lo", "L", "Thai", {3585}>>,
  <<"Lu", "L", "Cyrillic", {1046}>>,
  <<"Lu", "L", "Greek", {916}>>,
  <<"Lu", "L", "Latin", {65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 200, 201, 8490, 192, 65313}>>,
  <<"Mc", "M", "Devanagari", {2307}>>,
  <<"Me", "M", "Inherited", {8413}>>,
  <<"Mn", "M", "Inherited", {769}>>,
  <<"Nd", "N", "Arabic", {1633, 1635}>>,
  <<"Nd", "N", "Common", {48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 65297, 65298}>>,
  <<"Nd", "N", "Devanagari", {2406}>>,
  <<"Nl", "N", "Latin", {8544}>>,
  <<"No", "N", "Common", {178, 188, 189}>>,
  <<"Pc", "P", "Common", {95, 8255}>>,
  <<"Pd", "P", "Common", {45, 8212}>>,
  <<"Pe", "P", "Common", {41, 93, 125}>>,
  <<"Pf", "P", "Common", {187}>>,
  <<"Pi", "P", "Common", {171}>>,
  <<"Po", "P", "Common", {33, 34, 35, 37, 38, 39, 42, 44, 46, 47, 58, 59, 63, 64, 92, 191, 183}>>,
  <<"Ps", "P", "Common", {40, 91, 123}>>,
  <<"Sc", "S", "Common", {36, 8364}>>,
  <<"Sk", "S", "Common", {94, 96}>>,
  <<"Sm", "S", "Common", {43, 60, 61, 62, 124, 126, 8592, 215, 247}>>,
  <<"So", "S", "Common", {128512}>>,
  <<"Zl", "Z", "Common", {8232}>>,
  <<"Zp", "Z", "Common", {8233}>>,
  <<"Zs", "Z", "Common", {32, 160, 8192, 8195, 8239, 8287, 12288}>>,
  <<"Zs", "Z", "Ogham", {5760}>>>>

KnownChars == UNION {CharTable[i][4] : i \in 1..Len(CharTable)}
HasProp(name, c) == \E i \in 1..Len(CharTable) : c \in CharTable[i][4] /\ name \in {CharTable[i][1], CharTable[i][2], CharTable[i][3]}
=================================================================================

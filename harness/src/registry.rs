//! The registries of script, feature and language-system tags.

pub type Row = (&'static [u8; 4], &'static str, &'static str);

pub const SCRIPTS: &[Row] = &[
    (b"adlm", "Adlam", "Adlam"),
    (b"ahom", "Ahom", "Ahom"),
    (b"hluw", "Anatolian Hieroglyphs", "AnatolianHieroglyphs"),
    (b"arab", "Arabic", "Arabic"),
    (b"armn", "Armenian", "Armenian"),
    (b"avst", "Avestan", "Avestan"),
    (b"bali", "Balinese", "Balinese"),
    (b"bamu", "Bamum", "Bamum"),
    (b"bass", "Bassa Vah", "BassaVah"),
    (b"batk", "Batak", "Batak"),
    (b"beng", "Bengali", "Bengali"),
    (b"bng2", "Bengali", "BengaliV2"),
    (b"bhks", "Bhaiksuki", "Bhaiksuki"),
    (b"bopo", "Bopomofo", "Bopomofo"),
    (b"brah", "Brahmi", "Brahmi"),
    (b"brai", "Braille", "Braille"),
    (b"bugi", "Buginese", "Buginese"),
    (b"buhd", "Buhid", "Buhid"),
    (b"byzm", "Byzantine Music", "ByzantineMusic"),
    (b"cans", "Canadian Syllabics", "CanadianSyllabics"),
    (b"cari", "Carian", "Carian"),
    (b"aghb", "Caucasian Albanian", "CaucasianAlbanian"),
    (b"cakm", "Chakma", "Chakma"),
    (b"cham", "Cham", "Cham"),
    (b"cher", "Cherokee", "Cherokee"),
    (b"hani", "CJK Ideographic", "CJKIdeographic"),
    (b"copt", "Coptic", "Coptic"),
    (b"cprt", "Cypriot Syllabary", "CypriotSyllabary"),
    (b"cyrl", "Cyrillic", "Cyrillic"),
    (b"DFLT", "Default", "Default"),
    (b"dsrt", "Deseret", "Deseret"),
    (b"deva", "Devanagari", "Devanagari"),
    (b"dev2", "Devanagari", "DevanagariV2"),
    (b"dupl", "Duployan", "Duployan"),
    (b"egyp", "Egyptian Hieroglyphs", "EgyptianHieroglyphs"),
    (b"elba", "Elbasan", "Elbasan"),
    (b"ethi", "Ethiopic", "Ethiopic"),
    (b"geor", "Georgian", "Georgian"),
    (b"glag", "Glagolitic", "Glagolitic"),
    (b"goth", "Gothic", "Gothic"),
    (b"gran", "Grantha", "Grantha"),
    (b"grek", "Greek", "Greek"),
    (b"gujr", "Gujarati", "Gujarati"),
    (b"gjr2", "Gujarati", "GujaratiV2"),
    (b"guru", "Gurmukhi", "Gurmukhi"),
    (b"gur2", "Gurmukhi", "GurmukhiV2"),
    (b"hang", "Hangul", "Hangul"),
    (b"jamo", "Hangul Jamo", "HangulJamo"),
    (b"hano", "Hanunoo", "Hanunoo"),
    (b"hatr", "Hatran", "Hatran"),
    (b"hebr", "Hebrew", "Hebrew"),
    (b"kana", "Hiragana", "Hiragana"),
    (b"armi", "Imperial Aramaic", "ImperialAramaic"),
    (b"phli", "Inscriptional Pahlavi", "InscriptionalPahlavi"),
    (b"prti", "Inscriptional Parthian", "InscriptionalParthian"),
    (b"java", "Javanese", "Javanese"),
    (b"kthi", "Kaithi", "Kaithi"),
    (b"knda", "Kannada", "Kannada"),
    (b"knd2", "Kannada", "KannadaV2"),
    (b"kana", "Katakana", "Katakana"),
    (b"kali", "Kayah Li", "KayahLi"),
    (b"khar", "Kharosthi", "Kharosthi"),
    (b"khmr", "Khmer", "Khmer"),
    (b"khoj", "Khojki", "Khojki"),
    (b"sind", "Khudawadi", "Khudawadi"),
    (b"lao ", "Lao", "Lao"),
    (b"latn", "Latin", "Latin"),
    (b"lepc", "Lepcha", "Lepcha"),
    (b"limb", "Limbu", "Limbu"),
    (b"lina", "Linear A", "LinearA"),
    (b"linb", "Linear B", "LinearB"),
    (b"lisu", "Lisu (Fraser)", "Lisu"),
    (b"lyci", "Lycian", "Lycian"),
    (b"lydi", "Lydian", "Lydian"),
    (b"mahj", "Mahajani", "Mahajani"),
    (b"mlym", "Malayalam", "Malayalam"),
    (b"mlm2", "Malayalam", "MalayalamV2"),
    (b"mand", "Mandaic, Mandaean", "Mandaic"),
    (b"mani", "Manichaean", "Manichaean"),
    (b"marc", "Marchen", "Marchen"),
    (b"math", "Mathematical Alphanumeric Symbols", "MathematicalAlphanumericSymbols"),
    (b"mtei", "Meitei Mayek (Meithei, Meetei)", "MeiteiMayek"),
    (b"mend", "Mende Kikakui", "MendeKikakui"),
    (b"merc", "Meroitic Cursive", "MeroiticCursive"),
    (b"mero", "Meroitic Hieroglyphs", "MeroiticHieroglyphs"),
    (b"plrd", "Miao", "Miao"),
    (b"modi", "Modi", "Modi"),
    (b"mong", "Mongolian", "Mongolian"),
    (b"mroo", "Mro", "Mro"),
    (b"mult", "Multani", "Multani"),
    (b"musc", "Musical Symbols", "MusicalSymbols"),
    (b"mymr", "Myanmar", "Myanmar"),
    (b"mym2", "Myanmar", "MyanmarV2"),
    (b"nbat", "Nabataean", "Nabataean"),
    (b"newa", "Newa", "Newa"),
    (b"talu", "New Tai Lue", "NewTaiLue"),
    (b"nko ", "N’Ko", "NKo"),
    (b"orya", "Odia", "Odia"),
    (b"ory2", "Odia", "OdiaV2"),
    (b"ogam", "Ogham", "Ogham"),
    (b"olck", "Ol Chiki", "OlChiki"),
    (b"ital", "Old Italic", "OldItalic"),
    (b"hung", "Old Hungarian", "OldHungarian"),
    (b"narb", "Old North Arabian", "OldNorthArabian"),
    (b"perm", "Old Permic", "OldPermic"),
    (b"xpeo", "Old Persian Cuneiform", "OldPersianCuneiform"),
    (b"sarb", "Old South Arabian", "OldSouthArabian"),
    (b"orkh", "Old Turkic, Orkhon Runic", "OldTurkic"),
    (b"osge", "Osage", "Osage"),
    (b"osma", "Osmanya", "Osmanya"),
    (b"hmng", "Pahawh Hmong", "PahawhHmong"),
    (b"palm", "Palmyrene", "Palmyrene"),
    (b"pauc", "Pau Cin Hau", "PauCinHau"),
    (b"phag", "Phags-pa", "Phagspa"),
    (b"phnx", "Phoenician", "Phoenician"),
    (b"phlp", "Psalter Pahlavi", "PsalterPahlavi"),
    (b"rjng", "Rejang", "Rejang"),
    (b"runr", "Runic", "Runic"),
    (b"samr", "Samaritan", "Samaritan"),
    (b"saur", "Saurashtra", "Saurashtra"),
    (b"shrd", "Sharada", "Sharada"),
    (b"shaw", "Shavian", "Shavian"),
    (b"sidd", "Siddham", "Siddham"),
    (b"sgnw", "Sign Writing", "SignWriting"),
    (b"sinh", "Sinhala", "Sinhala"),
    (b"sora", "Sora Sompeng", "SoraSompeng"),
    (b"xsux", "Sumero-Akkadian Cuneiform", "SumeroAkkadianCuneiform"),
    (b"sund", "Sundanese", "Sundanese"),
    (b"sylo", "Syloti Nagri", "SylotiNagri"),
    (b"syrc", "Syriac", "Syriac"),
    (b"tglg", "Tagalog", "Tagalog"),
    (b"tagb", "Tagbanwa", "Tagbanwa"),
    (b"tale", "Tai Le", "TaiLe"),
    (b"lana", "Tai Tham (Lanna)", "TaiTham"),
    (b"tavt", "Tai Viet", "TaiViet"),
    (b"takr", "Takri", "Takri"),
    (b"taml", "Tamil", "Tamil"),
    (b"tml2", "Tamil", "TamilV2"),
    (b"tang", "Tangut", "Tangut"),
    (b"telu", "Telugu", "Telugu"),
    (b"tel2", "Telugu", "TeluguV2"),
    (b"thaa", "Thaana", "Thaana"),
    (b"thai", "Thai", "Thai"),
    (b"tibt", "Tibetan", "Tibetan"),
    (b"tfng", "Tifinagh", "Tifinagh"),
    (b"tirh", "Tirhuta", "Tirhuta"),
    (b"ugar", "Ugaritic Cuneiform", "UgariticCuneiform"),
    (b"vai ", "Vai", "Vai"),
    (b"wara", "Warang Citi", "WarangCiti"),
    (b"yi  ", "Yi", "Yi"),
];

pub const FEATURES: &[Row] = &[
    (b"aalt", "Access All Alternates", "AccessAllAlternates"),
    (b"abvf", "Above-base Forms", "AboveBaseForms"),
    (b"abvm", "Above-base Mark Positioning", "AboveBaseMarkPositioning"),
    (b"abvs", "Above-base Substitutions", "AboveBaseSubstitutions"),
    (b"afrc", "Alternative Fractions", "AlternativeFractions"),
    (b"akhn", "Akhand", "Akhand"),
    (b"blwf", "Below-base Forms", "BelowBaseForms"),
    (b"blwm", "Below-base Mark Positioning", "BelowBaseMarkPositioning"),
    (b"blws", "Below-base Substitutions", "BelowBaseSubstitutions"),
    (b"calt", "Contextual Alternates", "ContextualAlternates"),
    (b"case", "Case-sensitive Forms", "CaseSensitiveForms"),
    (b"ccmp", "Glyph Composition and Decomposition", "GlyphCompositionDecomposition"),
    (b"cfar", "Conjunct Form After Ro", "ConjunctFormAfterRo"),
    (b"chws", "Contextual Half-width Spacing", "ContextualHalfWidthSpacing"),
    (b"cjct", "Conjunct Forms", "ConjunctForms"),
    (b"clig", "Contextual Ligatures", "ContextualLigatures"),
    (b"cpct", "Centered CJK Punctuation", "CenteredCJKPunctuation"),
    (b"cpsp", "Capital Spacing", "CapitalSpacing"),
    (b"cswh", "Contextual Swash", "ContextualSwash"),
    (b"curs", "Cursive Positioning", "CursivePositioning"),
    (b"cv01", "Character Variants 1", "CharacterVariants1"),
    (b"cv02", "Character Variants 2", "CharacterVariants2"),
    (b"cv03", "Character Variants 3", "CharacterVariants3"),
    (b"cv04", "Character Variants 4", "CharacterVariants4"),
    (b"cv05", "Character Variants 5", "CharacterVariants5"),
    (b"cv06", "Character Variants 6", "CharacterVariants6"),
    (b"cv07", "Character Variants 7", "CharacterVariants7"),
    (b"cv08", "Character Variants 8", "CharacterVariants8"),
    (b"cv09", "Character Variants 9", "CharacterVariants9"),
    (b"cv10", "Character Variants 10", "CharacterVariants10"),
    (b"cv11", "Character Variants 11", "CharacterVariants11"),
    (b"cv12", "Character Variants 12", "CharacterVariants12"),
    (b"cv13", "Character Variants 13", "CharacterVariants13"),
    (b"cv14", "Character Variants 14", "CharacterVariants14"),
    (b"cv15", "Character Variants 15", "CharacterVariants15"),
    (b"cv16", "Character Variants 16", "CharacterVariants16"),
    (b"cv17", "Character Variants 17", "CharacterVariants17"),
    (b"cv18", "Character Variants 18", "CharacterVariants18"),
    (b"cv19", "Character Variants 19", "CharacterVariants19"),
    (b"cv20", "Character Variants 20", "CharacterVariants20"),
    (b"cv21", "Character Variants 21", "CharacterVariants21"),
    (b"cv22", "Character Variants 22", "CharacterVariants22"),
    (b"cv23", "Character Variants 23", "CharacterVariants23"),
    (b"cv24", "Character Variants 24", "CharacterVariants24"),
    (b"cv25", "Character Variants 25", "CharacterVariants25"),
    (b"cv26", "Character Variants 26", "CharacterVariants26"),
    (b"cv27", "Character Variants 27", "CharacterVariants27"),
    (b"cv28", "Character Variants 28", "CharacterVariants28"),
    (b"cv29", "Character Variants 29", "CharacterVariants29"),
    (b"cv30", "Character Variants 30", "CharacterVariants30"),
    (b"cv31", "Character Variants 31", "CharacterVariants31"),
    (b"cv32", "Character Variants 32", "CharacterVariants32"),
    (b"cv33", "Character Variants 33", "CharacterVariants33"),
    (b"cv34", "Character Variants 34", "CharacterVariants34"),
    (b"cv35", "Character Variants 35", "CharacterVariants35"),
    (b"cv36", "Character Variants 36", "CharacterVariants36"),
    (b"cv37", "Character Variants 37", "CharacterVariants37"),
    (b"cv38", "Character Variants 38", "CharacterVariants38"),
    (b"cv39", "Character Variants 39", "CharacterVariants39"),
    (b"cv40", "Character Variants 40", "CharacterVariants40"),
    (b"cv41", "Character Variants 41", "CharacterVariants41"),
    (b"cv42", "Character Variants 42", "CharacterVariants42"),
    (b"cv43", "Character Variants 43", "CharacterVariants43"),
    (b"cv44", "Character Variants 44", "CharacterVariants44"),
    (b"cv45", "Character Variants 45", "CharacterVariants45"),
    (b"cv46", "Character Variants 46", "CharacterVariants46"),
    (b"cv47", "Character Variants 47", "CharacterVariants47"),
    (b"cv48", "Character Variants 48", "CharacterVariants48"),
    (b"cv49", "Character Variants 49", "CharacterVariants49"),
    (b"cv50", "Character Variants 50", "CharacterVariants50"),
    (b"cv51", "Character Variants 51", "CharacterVariants51"),
    (b"cv52", "Character Variants 52", "CharacterVariants52"),
    (b"cv53", "Character Variants 53", "CharacterVariants53"),
    (b"cv54", "Character Variants 54", "CharacterVariants54"),
    (b"cv55", "Character Variants 55", "CharacterVariants55"),
    (b"cv56", "Character Variants 56", "CharacterVariants56"),
    (b"cv57", "Character Variants 57", "CharacterVariants57"),
    (b"cv58", "Character Variants 58", "CharacterVariants58"),
    (b"cv59", "Character Variants 59", "CharacterVariants59"),
    (b"cv60", "Character Variants 60", "CharacterVariants60"),
    (b"cv61", "Character Variants 61", "CharacterVariants61"),
    (b"cv62", "Character Variants 62", "CharacterVariants62"),
    (b"cv63", "Character Variants 63", "CharacterVariants63"),
    (b"cv64", "Character Variants 64", "CharacterVariants64"),
    (b"cv65", "Character Variants 65", "CharacterVariants65"),
    (b"cv66", "Character Variants 66", "CharacterVariants66"),
    (b"cv67", "Character Variants 67", "CharacterVariants67"),
    (b"cv68", "Character Variants 68", "CharacterVariants68"),
    (b"cv69", "Character Variants 69", "CharacterVariants69"),
    (b"cv70", "Character Variants 70", "CharacterVariants70"),
    (b"cv71", "Character Variants 71", "CharacterVariants71"),
    (b"cv72", "Character Variants 72", "CharacterVariants72"),
    (b"cv73", "Character Variants 73", "CharacterVariants73"),
    (b"cv74", "Character Variants 74", "CharacterVariants74"),
    (b"cv75", "Character Variants 75", "CharacterVariants75"),
    (b"cv76", "Character Variants 76", "CharacterVariants76"),
    (b"cv77", "Character Variants 77", "CharacterVariants77"),
    (b"cv78", "Character Variants 78", "CharacterVariants78"),
    (b"cv79", "Character Variants 79", "CharacterVariants79"),
    (b"cv80", "Character Variants 80", "CharacterVariants80"),
    (b"cv81", "Character Variants 81", "CharacterVariants81"),
    (b"cv82", "Character Variants 82", "CharacterVariants82"),
    (b"cv83", "Character Variants 83", "CharacterVariants83"),
    (b"cv84", "Character Variants 84", "CharacterVariants84"),
    (b"cv85", "Character Variants 85", "CharacterVariants85"),
    (b"cv86", "Character Variants 86", "CharacterVariants86"),
    (b"cv87", "Character Variants 87", "CharacterVariants87"),
    (b"cv88", "Character Variants 88", "CharacterVariants88"),
    (b"cv89", "Character Variants 89", "CharacterVariants89"),
    (b"cv90", "Character Variants 90", "CharacterVariants90"),
    (b"cv91", "Character Variants 91", "CharacterVariants91"),
    (b"cv92", "Character Variants 92", "CharacterVariants92"),
    (b"cv93", "Character Variants 93", "CharacterVariants93"),
    (b"cv94", "Character Variants 94", "CharacterVariants94"),
    (b"cv95", "Character Variants 95", "CharacterVariants95"),
    (b"cv96", "Character Variants 96", "CharacterVariants96"),
    (b"cv97", "Character Variants 97", "CharacterVariants97"),
    (b"cv98", "Character Variants 98", "CharacterVariants98"),
    (b"cv99", "Character Variants 99", "CharacterVariants99"),
    (b"c2pc", "Petite Capitals from Capitals", "PetiteCapitalsFromCapitals"),
    (b"c2sc", "Small Capitals from Capitals", "SmallCapitalsFromCapitals"),
    (b"dist", "Distances", "Distances"),
    (b"dlig", "Discretionary Ligatures", "DiscretionaryLigatures"),
    (b"dnom", "Denominators", "Denominators"),
    (b"dtls", "Dotless Forms", "DotlessForms"),
    (b"expt", "Expert Forms", "ExpertForms"),
    (b"falt", "Final Glyph on Line Alternates", "FinalGlyphonLineAlternates"),
    (b"fin2", "Terminal Forms 2", "TerminalForms2"),
    (b"fin3", "Terminal Forms 3", "TerminalForms3"),
    (b"fina", "Terminal Forms 1", "TerminalForms1"),
    (b"flac", "Flattened Accent Forms", "FlattenedAccentForms"),
    (b"frac", "Fractions", "Fractions"),
    (b"fwid", "Full Widths", "FullWidths"),
    (b"half", "Half Forms", "HalfForms"),
    (b"haln", "Halant Forms", "HalantForms"),
    (b"halt", "Alternate Half Widths", "AlternateHalfWidths"),
    (b"hist", "Historical Forms", "HistoricalForms"),
    (b"hkna", "Horizontal Kana Alternates", "HorizontalKanaAlternates"),
    (b"hlig", "Historical Ligatures", "HistoricalLigatures"),
    (b"hngl", "Hangul", "Hangul"),
    (b"hojo", "Hojo Kanji Forms", "HojoKanjiForms"),
    (b"hwid", "Half Widths", "HalfWidths"),
    (b"init", "Initial Forms", "InitialForms"),
    (b"isol", "Isolated Forms", "IsolatedForms"),
    (b"ital", "Italics", "Italics"),
    (b"jalt", "Justification Alternates", "JustificationAlternates"),
    (b"jp78", "JIS78 Forms", "JIS78Forms"),
    (b"jp83", "JIS83 Forms", "JIS83Forms"),
    (b"jp90", "JIS90 Forms", "JIS90Forms"),
    (b"jp04", "JIS2004 Forms", "JIS2004Forms"),
    (b"kern", "Kerning", "Kerning"),
    (b"lfbd", "Left Bounds", "LeftBounds"),
    (b"liga", "Standard Ligatures", "StandardLigatures"),
    (b"ljmo", "Leading Jamo Forms", "LeadingJamoForms"),
    (b"lnum", "Lining Figures", "LiningFigures"),
    (b"locl", "Localized Forms", "LocalizedForms"),
    (b"ltra", "Left-to-right Alternates", "LeftToRightAlternates"),
    (b"ltrm", "Left-to-right Mirrored Forms", "LeftToRightMirroredForms"),
    (b"mark", "Mark Positioning", "MarkPositioning"),
    (b"med2", "Medial Forms 2", "MedialForms2"),
    (b"medi", "Medial Forms 1", "MedialForms1"),
    (b"mgrk", "Mathematical Greek", "MathematicalGreek"),
    (b"mkmk", "Mark-to-mark Positioning", "MarkToMarkPositioning"),
    (b"mset", "Mark Positioning via Substitution", "MarkPositioningViaSubstitution"),
    (b"nalt", "Alternate Annotation Forms", "AlternateAnnotationForms"),
    (b"nlck", "NLC Kanji Forms", "NLCKanjiForms"),
    (b"nukt", "Nukta Forms", "NuktaForms"),
    (b"numr", "Numerators", "Numerators"),
    (b"onum", "Oldstyle Figures", "OldstyleFigures"),
    (b"opbd", "Optical Bounds", "OpticalBounds"),
    (b"ordn", "Ordinals", "Ordinals"),
    (b"ornm", "Ornaments", "Ornaments"),
    (b"palt", "Proportional Alternate Widths", "ProportionalAlternateWidths"),
    (b"pcap", "Petite Capitals", "PetiteCapitals"),
    (b"pkna", "Proportional Kana", "ProportionalKana"),
    (b"pnum", "Proportional Figures", "ProportionalFigures"),
    (b"pref", "Pre-base Forms", "PreBaseForms"),
    (b"pres", "Pre-base Substitutions", "PreBaseSubstitutions"),
    (b"pstf", "Post-base Forms", "PostBaseForms"),
    (b"psts", "Post-base Substitutions", "PostBaseSubstitutions"),
    (b"pwid", "Proportional Widths", "ProportionalWidths"),
    (b"qwid", "Quarter Widths", "QuarterWidths"),
    (b"rand", "Randomize", "Randomize"),
    (b"rclt", "Required Contextual Alternates", "RequiredContextualAlternates"),
    (b"rkrf", "Rakar Forms", "RakarForms"),
    (b"rlig", "Required Ligatures", "RequiredLigatures"),
    (b"rphf", "Reph Forms", "RephForms"),
    (b"rtbd", "Right Bounds", "RightBounds"),
    (b"rtla", "Right-to-left Alternates", "RightToLeftAlternates"),
    (b"rtlm", "Right-to-left Mirrored Forms", "RightToLeftMirroredForms"),
    (b"ruby", "Ruby Notation Forms", "RubyNotationForms"),
    (b"rvrn", "Required Variation Alternates", "RequiredVariationAlternates"),
    (b"salt", "Stylistic Alternates", "StylisticAlternates"),
    (b"sinf", "Scientific Inferiors", "ScientificInferiors"),
    (b"size", "Optical Size", "OpticalSize"),
    (b"smcp", "Small Capitals", "SmallCapitals"),
    (b"smpl", "Simplified Forms", "SimplifiedForms"),
    (b"ss01", "Stylistic Set 1", "StylisticSet1"),
    (b"ss02", "Stylistic Set 2", "StylisticSet2"),
    (b"ss03", "Stylistic Set 3", "StylisticSet3"),
    (b"ss04", "Stylistic Set 4", "StylisticSet4"),
    (b"ss05", "Stylistic Set 5", "StylisticSet5"),
    (b"ss06", "Stylistic Set 6", "StylisticSet6"),
    (b"ss07", "Stylistic Set 7", "StylisticSet7"),
    (b"ss08", "Stylistic Set 8", "StylisticSet8"),
    (b"ss09", "Stylistic Set 9", "StylisticSet9"),
    (b"ss10", "Stylistic Set 10", "StylisticSet10"),
    (b"ss11", "Stylistic Set 11", "StylisticSet11"),
    (b"ss12", "Stylistic Set 12", "StylisticSet12"),
    (b"ss13", "Stylistic Set 13", "StylisticSet13"),
    (b"ss14", "Stylistic Set 14", "StylisticSet14"),
    (b"ss15", "Stylistic Set 15", "StylisticSet15"),
    (b"ss16", "Stylistic Set 16", "StylisticSet16"),
    (b"ss17", "Stylistic Set 17", "StylisticSet17"),
    (b"ss18", "Stylistic Set 18", "StylisticSet18"),
    (b"ss19", "Stylistic Set 19", "StylisticSet19"),
    (b"ss20", "Stylistic Set 20", "StylisticSet20"),
    (b"ssty", "Math Script Style Alternates", "MathScriptStyleAlternates"),
    (b"stch", "Stretching Glyph Decomposition", "StretchingGlyphDecomposition"),
    (b"subs", "Subscript", "Subscript"),
    (b"sups", "Superscript", "Superscript"),
    (b"swsh", "Swash", "Swash"),
    (b"titl", "Titling", "Titling"),
    (b"tjmo", "Trailing Jamo Forms", "TrailingJamoForms"),
    (b"tnam", "Traditional Name Forms", "TraditionalNameForms"),
    (b"tnum", "Tabular Figures", "TabularFigures"),
    (b"trad", "Traditional Forms", "TraditionalForms"),
    (b"twid", "Third Widths", "ThirdWidths"),
    (b"unic", "Unicase", "Unicase"),
    (b"valt", "Alternate Vertical Metrics", "AlternateVerticalMetrics"),
    (b"vatu", "Vattu Variants", "VattuVariants"),
    (b"vchw", "Vertical Contextual Half-width Spacing", "VerticalContextualHalfWidthSpacing"),
    (b"vert", "Vertical Writing", "VerticalWriting"),
    (b"vhal", "Alternate Vertical Half Metrics", "AlternateVerticalHalfMetrics"),
    (b"vjmo", "Vowel Jamo Forms", "VowelJamoForms"),
    (b"vkna", "Vertical Kana Alternates", "VerticalKanaAlternates"),
    (b"vkrn", "Vertical Kerning", "VerticalKerning"),
    (b"vpal", "Proportional Alternate Vertical Metrics", "ProportionalAlternateVerticalMetrics"),
    (b"vrt2", "Vertical Alternates and Rotation", "VerticalAlternatesAndRotation"),
    (b"vrtr", "Vertical Alternates for Rotation", "VerticalAlternatesForRotation"),
    (b"zero", "Slashed Zero", "SlashedZero"),
];

pub const LANGUAGES: &[(&[u8; 4], &str, &str, &str)] = &[
    (b"ABA ", "Abaza", "Abaza", "abq"),
    (b"ABK ", "Abkhazian", "Abkhazian", "abk"),
    (b"ACH ", "Acholi", "Acholi", "ach"),
    (b"ACR ", "Achi", "Achi", "acr"),
    (b"ADY ", "Adyghe", "Adyghe", "ady"),
    (b"AFK ", "Afrikaans", "Afrikaans", "afr"),
    (b"AFR ", "Afar", "Afar", "aar"),
    (b"AGW ", "Agaw", "Agaw", "ahg"),
    (b"AIO ", "Aiton", "Aiton", "aio"),
    (b"AKA ", "Akan", "Akan", "aka"),
    (b"ALS ", "Alsatian", "Alsatian", "gsw"),
    (b"ALT ", "Altai", "Altai", "atv, alt"),
    (b"AMH ", "Amharic", "Amharic", "amh"),
    (b"ANG ", "Anglo-Saxon", "AngloSaxon", "ang"),
    (b"APPH", "Phonetic Transcription, Americanist", "AmericanistPhoneticNotation", ""),
    (b"ARA ", "Arabic", "Arabic", "ara"),
    (b"ARG ", "Aragonese", "Aragonese", "arg"),
    (b"ARI ", "Aari", "Aari", "aiw"),
    (b"ARK ", "Rakhine", "Rakhine", "mhv, rmz, rki"),
    (b"ASM ", "Assamese", "Assamese", "asm"),
    (b"AST ", "Asturian", "Asturian", "ast"),
    (b"ATH ", "Athapaskan", "Athapaskan", "apk, apj, apl, apm, apw, nav, bea, sek, bcr, caf, crx, clc, gwi, haa, chp, dgr, scs, xsl, srs, ing, hoi, koy, hup, ktw, mvb, wlk, coq, ctc, gce, tol, tuu, kkz, tgx, tht, aht, tfn, taa, tau, tcb, kuu, tce, ttm, txc"),
    (b"AVR ", "Avar", "Avar", "ava"),
    (b"AWA ", "Awadhi", "Awadhi", "awa"),
    (b"AYM ", "Aymara", "Aymara", "aym"),
    (b"AZB ", "Torki", "Torki", "azb"),
    (b"AZE ", "Azerbaijani", "Azerbaijani", "aze"),
    (b"BAD ", "Badaga", "Badaga", "bfq"),
    (b"BAD0", "Banda", "Banda", "bad"),
    (b"BAG ", "Baghelkhandi", "Baghelkhandi", "bfy"),
    (b"BAL ", "Balkar", "Balkar", "krc"),
    (b"BAN ", "Balinese", "Balinese", "ban"),
    (b"BAR ", "Bavarian", "Bavarian", "bar"),
    (b"BAU ", "Baulé", "Baule", "bci"),
    (b"BBC ", "Batak Toba", "BatakToba", "bbc"),
    (b"BBR ", "Berber", "Berber", ""),
    (b"BCH ", "Bench", "Bench", "bcq"),
    (b"BCR ", "Bible Cree", "BibleCree", ""),
    (b"BDY ", "Bandjalang", "Bandjalang", "bdy"),
    (b"BEL ", "Belarussian", "Belarussian", "bel"),
    (b"BEM ", "Bemba", "Bemba", "bem"),
    (b"BEN ", "Bengali", "Bengali", "ben"),
    (b"BGC ", "Haryanvi", "Haryanvi", "bgc"),
    (b"BGQ ", "Bagri", "Bagri", "bgq"),
    (b"BGR ", "Bulgarian", "Bulgarian", "bul"),
    (b"BHI ", "Bhili", "Bhili", "bhi, bhb"),
    (b"BHO ", "Bhojpuri", "Bhojpuri", "bho"),
    (b"BIK ", "Bikol", "Bikol", "bik, bhk, bcl, bto, cts, bln"),
    (b"BIL ", "Bilen", "Bilen", "byn"),
    (b"BIS ", "Bislama", "Bislama", "bis"),
    (b"BJJ ", "Kanauji", "Kanauji", "bjj"),
    (b"BKF ", "Blackfoot", "Blackfoot", "bla"),
    (b"BLI ", "Baluchi", "Baluchi", "bal"),
    (b"BLK ", "Pa’o Karen", "PaoKaren", "blk"),
    (b"BLN ", "Balante", "Balante", "bjt, ble"),
    (b"BLT ", "Balti", "Balti", "bft"),
    (b"BMB ", "Bambara (Bamanankan)", "Bambara", "bam"),
    (b"BML ", "Bamileke", "Bamileke", ""),
    (b"BOS ", "Bosnian", "Bosnian", "bos"),
    (b"BPY ", "Bishnupriya Manipuri", "BishnupriyaManipuri", "bpy"),
    (b"BRE ", "Breton", "Breton", "bre"),
    (b"BRH ", "Brahui", "Brahui", "brh"),
    (b"BRI ", "Braj Bhasha", "BrajBhasha", "bra"),
    (b"BRM ", "Burmese", "Burmese", "mya"),
    (b"BRX ", "Bodo", "Bodo", "brx"),
    (b"BSH ", "Bashkir", "Bashkir", "bak"),
    (b"BSK ", "Burushaski", "Burushaski", "bsk"),
    (b"BTI ", "Beti", "Beti", "btb"),
    (b"BTS ", "Batak Simalungun", "BatakSimalungun", "bts"),
    (b"BUG ", "Bugis", "Bugis", "bug"),
    (b"BYV ", "Medumba", "Medumba", "byv"),
    (b"CAK ", "Kaqchikel", "Kaqchikel", "cak"),
    (b"CAT ", "Catalan", "Catalan", "cat"),
    (b"CBK ", "Zamboanga Chavacano", "ZamboangaChavacano", "cbk"),
    (b"CEB ", "Cebuano", "Cebuano", "ceb"),
    (b"CHE ", "Chechen", "Chechen", "che"),
    (b"CHG ", "Chaha Gurage", "ChahaGurage", "sgw"),
    (b"CHH ", "Chattisgarhi", "Chattisgarhi", "hne"),
    (b"CHI ", "Chichewa (Chewa, Nyanja)", "Chichewa", "nya"),
    (b"CHK ", "Chukchi", "Chukchi", "ckt"),
    (b"CHK0", "Chuukese", "Chuukese", "chk"),
    (b"CHO ", "Choctaw", "Choctaw", "cho"),
    (b"CHP ", "Chipewyan", "Chipewyan", "chp"),
    (b"CHR ", "Cherokee", "Cherokee", "chr"),
    (b"CHA ", "Chamorro", "Chamorro", "cha"),
    (b"CHU ", "Chuvash", "Chuvash", "chv"),
    (b"CHY ", "Cheyenne", "Cheyenne", "chy"),
    (b"CGG ", "Chiga", "Chiga", "cgg"),
    (b"CMR ", "Comorian", "Comorian", "swb, wlc, wni, zdj"),
    (b"COP ", "Coptic", "Coptic", "cop"),
    (b"COR ", "Cornish", "Cornish", "cor"),
    (b"COS ", "Corsican", "Corsican", "cos"),
    (b"CPP ", "Creoles", "Creoles", "cpp"),
    (b"CRE ", "Cree", "Cree", "cre"),
    (b"CRR ", "Carrier", "Carrier", "crx, caf"),
    (b"CRT ", "Crimean Tatar", "CrimeanTatar", "crh"),
    (b"CSB ", "Kashubian", "Kashubian", "csb"),
    (b"CSL ", "Church Slavonic", "ChurchSlavonic", "chu"),
    (b"CSY ", "Czech", "Czech", "ces"),
    (b"CTG ", "Chittagonian", "Chittagonian", "ctg"),
    (b"CUK ", "San Blas Kuna", "SanBlasKuna", "cuk"),
    (b"DAN ", "Danish", "Danish", "dan"),
    (b"DAR ", "Dargwa", "Dargwa", "dar"),
    (b"DAX ", "Dayi", "Dayi", "dax"),
    (b"DCR ", "Woods Cree", "WoodsCree", "cwd"),
    (b"DFLT", "Default", "Default", ""),
    (b"DEU ", "German", "German", "deu"),
    (b"DGO ", "Dogri", "Dogri", "dgo"),
    (b"DGR ", "Dogri", "DogriMacrolanguage", "doi"),
    (b"DHG ", "Dhangu", "Dhangu", "dhg"),
    (b"DHV ", "Divehi (Dhivehi, Maldivian)", "DivehiDeprecated", "div"),
    (b"DIQ ", "Dimli", "Dimli", "diq"),
    (b"DIV ", "Divehi (Dhivehi, Maldivian)", "Divehi", "div"),
    (b"DJR ", "Zarma", "Zarma", "dje"),
    (b"DJR0", "Djambarrpuyngu", "Djambarrpuyngu", "djr"),
    (b"DNG ", "Dangme", "Dangme", "ada"),
    (b"DNJ ", "Dan", "Dan", "dnj"),
    (b"DNK ", "Dinka", "Dinka", "din"),
    (b"DRI ", "Dari", "Dari", "prs"),
    (b"DUJ ", "Dhuwal", "Dhuwal", "duj"),
    (b"DUN ", "Dungan", "Dungan", "dng"),
    (b"DZN ", "Dzongkha", "Dzongkha", "dzo"),
    (b"EBI ", "Ebira", "Ebira", "igb"),
    (b"ECR ", "Eastern Cree", "EasternCree", "crj, crl"),
    (b"EDO ", "Edo", "Edo", "bin"),
    (b"EFI ", "Efik", "Efik", "efi"),
    (b"ELL ", "Greek", "Greek", "ell"),
    (b"EMK ", "Eastern Maninkakan", "EasternManinkakan", "emk"),
    (b"ENG ", "English", "English", "eng"),
    (b"ERZ ", "Erzya", "Erzya", "myv"),
    (b"ESP ", "Spanish", "Spanish", "spa"),
    (b"ESU ", "Central Yupik", "CentralYupik", "esu"),
    (b"ETI ", "Estonian", "Estonian", "est"),
    (b"EUQ ", "Basque", "Basque", "eus"),
    (b"EVK ", "Evenki", "Evenki", "evn"),
    (b"EVN ", "Even", "Even", "eve"),
    (b"EWE ", "Ewe", "Ewe", "ewe"),
    (b"FAN ", "French Antillean", "FrenchAntillean", "acf"),
    (b"FAN0", "Fang", "Fang", "fan"),
    (b"FAR ", "Persian", "Persian", "fas"),
    (b"FAT ", "Fanti", "Fanti", "fat"),
    (b"FIN ", "Finnish", "Finnish", "fin"),
    (b"FJI ", "Fijian", "Fijian", "fij"),
    (b"FLE ", "Dutch (Flemish)", "DutchFlemish", "vls"),
    (b"FMP ", "Fe’fe’", "Fefe", "fmp"),
    (b"FNE ", "Forest Nenets", "ForestNenets", "enf"),
    (b"FON ", "Fon", "Fon", "fon"),
    (b"FOS ", "Faroese", "Faroese", "fao"),
    (b"FRA ", "French", "French", "fra"),
    (b"FRC ", "Cajun French", "CajunFrench", "frc"),
    (b"FRI ", "Frisian", "Frisian", "fry"),
    (b"FRL ", "Friulian", "Friulian", "fur"),
    (b"FRP ", "Arpitan", "Arpitan", "frp"),
    (b"FTA ", "Futa", "Futa", "fuf"),
    (b"FUL ", "Fulah", "Fulah", "ful"),
    (b"FUV ", "Nigerian Fulfulde", "NigerianFulfulde", "fuv"),
    (b"GAD ", "Ga", "Ga", "gaa"),
    (b"GAE ", "Scottish Gaelic (Gaelic)", "ScottishGaelic", "gla"),
    (b"GAG ", "Gagauz", "Gagauz", "gag"),
    (b"GAL ", "Galician", "Galician", "glg"),
    (b"GAR ", "Garshuni", "Garshuni", ""),
    (b"GAW ", "Garhwali", "Garhwali", "gbm"),
    (b"GEZ ", "Ge’ez", "Geez", "gez"),
    (b"GIH ", "Githabul", "Githabul", "gih"),
    (b"GIL ", "Gilyak", "Gilyak", "niv"),
    (b"GIL0", "Kiribati (Gilbertese)", "Kiribati", "gil"),
    (b"GKP ", "Kpelle (Guinea)", "KpelleGuinea", "gkp"),
    (b"GLK ", "Gilaki", "Gilaki", "glk"),
    (b"GMZ ", "Gumuz", "Gumuz", "guk"),
    (b"GNN ", "Gumatj", "Gumatj", "gnn"),
    (b"GOG ", "Gogo", "Gogo", "gog"),
    (b"GON ", "Gondi", "Gondi", "gon"),
    (b"GRN ", "Greenlandic", "Greenlandic", "kal"),
    (b"GRO ", "Garo", "Garo", "grt"),
    (b"GUA ", "Guarani", "Guarani", "grn"),
    (b"GUC ", "Wayuu", "Wayuu", "guc"),
    (b"GUF ", "Gupapuyngu", "Gupapuyngu", "guf"),
    (b"GUJ ", "Gujarati", "Gujarati", "guj"),
    (b"GUZ ", "Gusii", "Gusii", "guz"),
    (b"HAI ", "Haitian (Haitian Creole)", "Haitian", "hat"),
    (b"HAL ", "Halam", "Halam", "flm"),
    (b"HAR ", "Harauti", "Harauti", "hoj"),
    (b"HAU ", "Hausa", "Hausa", "hau"),
    (b"HAW ", "Hawaiian", "Hawaiian", "haw"),
    (b"HAY ", "Haya", "Haya", "hay"),
    (b"HAZ ", "Hazaragi", "Hazaragi", "haz"),
    (b"HBN ", "Hammer-Banna", "HammerBanna", "amf"),
    (b"HER ", "Herero", "Herero", "her"),
    (b"HIL ", "Hiligaynon", "Hiligaynon", "hil"),
    (b"HIN ", "Hindi", "Hindi", "hin"),
    (b"HMA ", "High Mari", "HighMari", "mrj"),
    (b"HMN ", "Hmong", "Hmong", "hmn"),
    (b"HMO ", "Hiri Motu", "HiriMotu", "hmo"),
    (b"HND ", "Hindko", "Hindko", "hno, hnd"),
    (b"HO  ", "Ho", "Ho", "hoc"),
    (b"HRI ", "Harari", "Harari", "har"),
    (b"HRV ", "Croatian", "Croatian", "hrv"),
    (b"HUN ", "Hungarian", "Hungarian", "hun"),
    (b"HYE ", "Armenian", "Armenian", "hye"),
    (b"HYE0", "Armenian East", "ArmenianEast", "hye"),
    (b"IBA ", "Iban", "Iban", "iba"),
    (b"IBB ", "Ibibio", "Ibibio", "ibb"),
    (b"IBO ", "Igbo", "Igbo", "ibo"),
    (b"IJO ", "Ijo languages", "Ijolanguages", "ijc"),
    (b"IDO ", "Ido", "Ido", "ido"),
    (b"ILE ", "Interlingue", "Interlingue", "ile"),
    (b"ILO ", "Ilokano", "Ilokano", "ilo"),
    (b"INA ", "Interlingua", "Interlingua", "ina"),
    (b"IND ", "Indonesian", "Indonesian", "ind"),
    (b"ING ", "Ingush", "Ingush", "inh"),
    (b"INU ", "Inuktitut", "Inuktitut", "iku"),
    (b"IPK ", "Inupiat", "Inupiat", "ipk"),
    (b"IPPH", "Phonetic transcription, IPA", "InternationalPhoneticAlphabet", ""),
    (b"IRI ", "Irish", "Irish", "gle"),
    (b"IRT ", "Irish Traditional", "IrishTraditional", "gle"),
    (b"ISL ", "Icelandic", "Icelandic", "isl"),
    (b"ISM ", "Inari Sami", "InariSami", "smn"),
    (b"ITA ", "Italian", "Italian", "ita"),
    (b"IWR ", "Hebrew", "Hebrew", "heb"),
    (b"JAM ", "Jamaican Creole", "JamaicanCreole", "jam"),
    (b"JAN ", "Japanese", "Japanese", "jpn"),
    (b"JAV ", "Javanese", "Javanese", "jav"),
    (b"JBO ", "Lojban", "Lojban", "jbo"),
    (b"JCT ", "Krymchak", "Krymchak", "jct"),
    (b"JII ", "Yiddish", "Yiddish", "yid"),
    (b"JUD ", "Ladino", "Ladino", "lad"),
    (b"JUL ", "Jula", "Jula", "dyu"),
    (b"KAB ", "Kabardian", "Kabardian", "kbd"),
    (b"KAB0", "Kabyle", "Kabyle", "kab"),
    (b"KAC ", "Kachchi", "Kachchi", "kfr"),
    (b"KAL ", "Kalenjin", "Kalenjin", "kln"),
    (b"KAN ", "Kannada", "Kannada", "kan"),
    (b"KAR ", "Karachay", "Karachay", "krc"),
    (b"KAT ", "Georgian", "Georgian", "kat"),
    (b"KAZ ", "Kazakh", "Kazakh", "kaz"),
    (b"KDE ", "Makonde", "Makonde", "kde"),
    (b"KEA ", "Kabuverdianu (Crioulo)", "Kabuverdianu", "kea"),
    (b"KEB ", "Kebena", "Kebena", "ktb"),
    (b"KEK ", "Kekchi", "Kekchi", "kek"),
    (b"KGE ", "Khutsuri Georgian", "KhutsuriGeorgian", "kat"),
    (b"KHA ", "Khakass", "Khakass", "kjh"),
    (b"KHK ", "Khanty-Kazim", "KhantyKazim", "kca"),
    (b"KHM ", "Khmer", "Khmer", "khm"),
    (b"KHS ", "Khanty-Shurishkar", "KhantyShurishkar", "kca"),
    (b"KHT ", "Khamti Shan", "KhamtiShan", "kht"),
    (b"KHV ", "Khanty-Vakhi", "KhantyVakhi", "kca"),
    (b"KHW ", "Khowar", "Khowar", "khw"),
    (b"KIK ", "Kikuyu (Gikuyu)", "Kikuyu", "kik"),
    (b"KIR ", "Kirghiz (Kyrgyz)", "Kirghiz", "kir"),
    (b"KIS ", "Kisii", "Kisii", "kqs, kss"),
    (b"KIU ", "Kirmanjki", "Kirmanjki", "kiu"),
    (b"KJD ", "Southern Kiwai", "SouthernKiwai", "kjd"),
    (b"KJP ", "Eastern Pwo Karen", "EasternPwoKaren", "kjp"),
    (b"KKN ", "Kokni", "Kokni", "kex"),
    (b"KLM ", "Kalmyk", "Kalmyk", "xal"),
    (b"KMB ", "Kamba", "Kamba", "kam"),
    (b"KMN ", "Kumaoni", "Kumaoni", "kfy"),
    (b"KMO ", "Komo", "Komo", "kmw"),
    (b"KMS ", "Komso", "Komso", "kxc"),
    (b"KMZ ", "Khorasani Turkic", "KhorasaniTurkic", "kmz"),
    (b"KNR ", "Kanuri", "Kanuri", "kau"),
    (b"KOD ", "Kodagu", "Kodagu", "kfa"),
    (b"KOH ", "Korean Old Hangul", "KoreanOldHangul", "okm"),
    (b"KOK ", "Konkani", "Konkani", "kok"),
    (b"KON ", "Kikongo", "Kikongo", "ktu"),
    (b"KOM ", "Komi", "Komi", "kom"),
    (b"KON0", "Kongo", "Kongo", "kon"),
    (b"KOP ", "Komi-Permyak", "KomiPermyak", "koi"),
    (b"KOR ", "Korean", "Korean", "kor"),
    (b"KOS ", "Kosraean", "Kosraean", "kos"),
    (b"KOZ ", "Komi-Zyrian", "KomiZyrian", "kpv"),
    (b"KPL ", "Kpelle", "Kpelle", "kpe"),
    (b"KRI ", "Krio", "Krio", "kri"),
    (b"KRK ", "Karakalpak", "Karakalpak", "kaa"),
    (b"KRL ", "Karelian", "Karelian", "krl"),
    (b"KRM ", "Karaim", "Karaim", "kdr"),
    (b"KRN ", "Karen", "Karen", "kar"),
    (b"KRT ", "Koorete", "Koorete", "kqy"),
    (b"KSH ", "Kashmiri", "Kashmiri", "kas"),
    (b"KSH0", "Ripuarian", "Ripuarian", "ksh"),
    (b"KSI ", "Khasi", "Khasi", "kha"),
    (b"KSM ", "Kildin Sami", "KildinSami", "sjd"),
    (b"KSW ", "S’gaw Karen", "SgawKaren", "ksw"),
    (b"KUA ", "Kuanyama", "Kuanyama", "kua"),
    (b"KUI ", "Kui", "Kui", "kxu"),
    (b"KUL ", "Kulvi", "Kulvi", "kfx"),
    (b"KUM ", "Kumyk", "Kumyk", "kum"),
    (b"KUR ", "Kurdish", "Kurdish", "kur"),
    (b"KUU ", "Kurukh", "Kurukh", "kru"),
    (b"KUY ", "Kuy", "Kuy", "kdt"),
    (b"KYK ", "Koryak", "Koryak", "kpy"),
    (b"KYU ", "Western Kayah", "WesternKayah", "kyu"),
    (b"LAD ", "Ladin", "Ladin", "lld"),
    (b"LAH ", "Lahuli", "Lahuli", "bfu"),
    (b"LAK ", "Lak", "Lak", "lbe"),
    (b"LAM ", "Lambani", "Lambani", "lmn"),
    (b"LAO ", "Lao", "Lao", "lao"),
    (b"LAT ", "Latin", "Latin", "lat"),
    (b"LAZ ", "Laz", "Laz", "lzz"),
    (b"LCR ", "L-Cree", "LCree", "crm"),
    (b"LDK ", "Ladakhi", "Ladakhi", "lbj"),
    (b"LEZ ", "Lezgi", "Lezgi", "lez"),
    (b"LIJ ", "Ligurian", "Ligurian", "lij"),
    (b"LIM ", "Limburgish", "Limburgish", "lim"),
    (b"LIN ", "Lingala", "Lingala", "lin"),
    (b"LIS ", "Lisu", "Lisu", "lis"),
    (b"LJP ", "Lampung", "Lampung", "ljp"),
    (b"LKI ", "Laki", "Laki", "lki"),
    (b"LMA ", "Low Mari", "LowMari", "mhr"),
    (b"LMB ", "Limbu", "Limbu", "lif"),
    (b"LMO ", "Lombard", "Lombard", "lmo"),
    (b"LMW ", "Lomwe", "Lomwe", "ngl"),
    (b"LOM ", "Loma", "Loma", "lom"),
    (b"LRC ", "Luri", "Luri", "lrc, luz, bqi, zum"),
    (b"LSB ", "Lower Sorbian", "LowerSorbian", "dsb"),
    (b"LSM ", "Lule Sami", "LuleSami", "smj"),
    (b"LTH ", "Lithuanian", "Lithuanian", "lit"),
    (b"LTZ ", "Luxembourgish", "Luxembourgish", "ltz"),
    (b"LUA ", "Luba-Lulua", "LubaLulua", "lua"),
    (b"LUB ", "Luba-Katanga", "LubaKatanga", "lub"),
    (b"LUG ", "Ganda", "Ganda", "lug"),
    (b"LUH ", "Luyia", "Luyia", "luy"),
    (b"LUO ", "Luo", "Luo", "luo"),
    (b"LVI ", "Latvian", "Latvian", "lav"),
    (b"MAD ", "Madura", "Madura", "mad"),
    (b"MAG ", "Magahi", "Magahi", "mag"),
    (b"MAH ", "Marshallese", "Marshallese", "mah"),
    (b"MAJ ", "Majang", "Majang", "mpe"),
    (b"MAK ", "Makhuwa", "Makhuwa", "vmw"),
    (b"MAL ", "Malayalam", "Malayalam", "mal"),
    (b"MAM ", "Mam", "Mam", "mam"),
    (b"MAN ", "Mansi", "Mansi", "mns"),
    (b"MAP ", "Mapudungun", "Mapudungun", "arn"),
    (b"MAR ", "Marathi", "Marathi", "mar"),
    (b"MAW ", "Marwari", "Marwari", "mwr, dhd, rwr, mve, wry, mtr, swv"),
    (b"MBN ", "Mbundu", "Mbundu", "kmb"),
    (b"MBO ", "Mbo", "Mbo", "mbo"),
    (b"MCH ", "Manchu", "Manchu", "mnc"),
    (b"MCR ", "Moose Cree", "MooseCree", "crm"),
    (b"MDE ", "Mende", "Mende", "men"),
    (b"MDR ", "Mandar", "Mandar", "mdr"),
    (b"MEN ", "Me’en", "Meen", "mym"),
    (b"MER ", "Meru", "Meru", "mer"),
    (b"MFE ", "Morisyen", "Morisyen", "mfe"),
    (b"MIN ", "Minangkabau", "Minangkabau", "min"),
    (b"MIZ ", "Mizo", "Mizo", "lus"),
    (b"MKD ", "Macedonian", "Macedonian", "mkd"),
    (b"MKR ", "Makasar", "Makasar", "mak"),
    (b"MKW ", "Kituba", "Kituba", "mkw"),
    (b"MLE ", "Male", "Male", "mdy"),
    (b"MLG ", "Malagasy", "Malagasy", "mlg"),
    (b"MLN ", "Malinke", "Malinke", "mlq"),
    (b"MLR ", "Malayalam Reformed", "MalayalamReformed", "mal"),
    (b"MLY ", "Malay", "Malay", "msa"),
    (b"MND ", "Mandinka", "Mandinka", "mnk"),
    (b"MNG ", "Mongolian", "Mongolian", "mon"),
    (b"MNI ", "Manipuri", "Manipuri", "mni"),
    (b"MNK ", "Maninka", "Maninka", "man, mnk, myq, mku, msc, emk, mwk, mlq"),
    (b"MNX ", "Manx", "Manx", "glv"),
    (b"MOH ", "Mohawk", "Mohawk", "moh"),
    (b"MOK ", "Moksha", "Moksha", "mdf"),
    (b"MOL ", "Moldavian", "Moldavian", "mol"),
    (b"MON ", "Mon", "Mon", "mnw"),
    (b"MOR ", "Moroccan", "Moroccan", ""),
    (b"MOS ", "Mossi", "Mossi", "mos"),
    (b"MRI ", "Maori", "Maori", "mri"),
    (b"MTH ", "Maithili", "Maithili", "mai"),
    (b"MTS ", "Maltese", "Maltese", "mlt"),
    (b"MUN ", "Mundari", "Mundari", "unr"),
    (b"MUS ", "Muscogee", "Muscogee", "mus"),
    (b"MWL ", "Mirandese", "Mirandese", "mwl"),
    (b"MWW ", "Hmong Daw", "HmongDaw", "mww"),
    (b"MYN ", "Mayan", "Mayan", "myn"),
    (b"MZN ", "Mazanderani", "Mazanderani", "mzn"),
    (b"NAG ", "Naga-Assamese", "NagaAssamese", "nag"),
    (b"NAH ", "Nahuatl", "Nahuatl", "nah"),
    (b"NAN ", "Nanai", "Nanai", "gld"),
    (b"NAP ", "Neapolitan", "Neapolitan", "nap"),
    (b"NAS ", "Naskapi", "Naskapi", "nsk"),
    (b"NAU ", "Nauruan", "Nauruan", "nau"),
    (b"NAV ", "Navajo", "Navajo", "nav"),
    (b"NCR ", "N-Cree", "NCree", "csw"),
    (b"NDB ", "Ndebele", "Ndebele", "nbl, nde"),
    (b"NDC ", "Ndau", "Ndau", "ndc"),
    (b"NDG ", "Ndonga", "Ndonga", "ndo"),
    (b"NDS ", "Low Saxon", "LowSaxon", "nds"),
    (b"NEP ", "Nepali", "Nepali", "nep"),
    (b"NEW ", "Newari", "Newari", "new"),
    (b"NGA ", "Ngbaka", "Ngbaka", "nga"),
    (b"NGR ", "Nagari", "Nagari", ""),
    (b"NHC ", "Norway House Cree", "NorwayHouseCree", "csw"),
    (b"NIS ", "Nisi", "Nisi", "dap"),
    (b"NIU ", "Niuean", "Niuean", "niu"),
    (b"NKL ", "Nyankole", "Nyankole", "nyn"),
    (b"NKO ", "N’Ko", "NKo", "nqo"),
    (b"NLD ", "Dutch", "Dutch", "nld"),
    (b"NOE ", "Nimadi", "Nimadi", "noe"),
    (b"NOG ", "Nogai", "Nogai", "nog"),
    (b"NOR ", "Norwegian", "Norwegian", "nob"),
    (b"NOV ", "Novial", "Novial", "nov"),
    (b"NSM ", "Northern Sami", "NorthernSami", "sme"),
    (b"NSO ", "Sotho, Northern", "NorthernSotho", "nso"),
    (b"NTA ", "Northern Tai", "NorthernTai", "nod"),
    (b"NTO ", "Esperanto", "Esperanto", "epo"),
    (b"NYM ", "Nyamwezi", "Nyamwezi", "nym"),
    (b"NYN ", "Norwegian Nynorsk (Nynorsk, Norwegian)", "NorwegianNynorsk", "nno"),
    (b"NZA ", "Mbembe Tigon", "MbembeTigon", "nza"),
    (b"OCI ", "Occitan", "Occitan", "oci"),
    (b"OCR ", "Oji-Cree", "OjiCree", "ojs"),
    (b"OJB ", "Ojibway", "Ojibway", "oji"),
    (b"ORI ", "Odia", "Odia", "ori"),
    (b"ORO ", "Oromo", "Oromo", "orm"),
    (b"OSS ", "Ossetian", "Ossetian", "oss"),
    (b"PAA ", "Palestinian Aramaic", "PalestinianAramaic", "sam"),
    (b"PAG ", "Pangasinan", "Pangasinan", "pag"),
    (b"PAL ", "Pali", "Pali", "pli"),
    (b"PAM ", "Pampangan", "Pampangan", "pam"),
    (b"PAN ", "Punjabi", "Punjabi", "pan"),
    (b"PAP ", "Palpa", "Palpa", "plp"),
    (b"PAP0", "Papiamentu", "Papiamentu", "pap"),
    (b"PAS ", "Pashto", "Pashto", "pus"),
    (b"PAU ", "Palauan", "Palauan", "pau"),
    (b"PCC ", "Bouyei", "Bouyei", "pcc"),
    (b"PCD ", "Picard", "Picard", "pcd"),
    (b"PDC ", "Pennsylvania German", "PennsylvaniaGerman", "pdc"),
    (b"PGR ", "Polytonic Greek", "PolytonicGreek", "ell"),
    (b"PHK ", "Phake", "Phake", "phk"),
    (b"PIH ", "Norfolk", "Norfolk", "pih"),
    (b"PIL ", "Filipino", "Filipino", "fil"),
    (b"PLG ", "Palaung", "Palaung", "pce, rbb, pll"),
    (b"PLK ", "Polish", "Polish", "pol"),
    (b"PMS ", "Piemontese", "Piemontese", "pms"),
    (b"PNB ", "Western Panjabi", "WesternPanjabi", "pnb"),
    (b"POH ", "Pocomchi", "Pocomchi", "poh"),
    (b"PON ", "Pohnpeian", "Pohnpeian", "pon"),
    (b"PRO ", "Provencal", "Provencal", "pro"),
    (b"PTG ", "Portuguese", "Portuguese", "por"),
    (b"PWO ", "Western Pwo Karen", "WesternPwoKaren", "pwo"),
    (b"QIN ", "Chin", "Chin", "bgr, cnh, cnw, czt, sez, tcp, csy, ctd, flm, pck, tcz, zom, cmr, dao, hlt, cka, cnk, mrh, mwg, cbl, cnb, csh"),
    (b"QUC ", "K’iche’", "Kiche", "quc"),
    (b"QUH ", "Quechua (Bolivia)", "QuechuaBolivia", "quh"),
    (b"QUZ ", "Quechua", "Quechua", "quz"),
    (b"QVI ", "Quechua (Ecuador)", "QuechuaEcuador", "qvi"),
    (b"QWH ", "Quechua (Peru)", "QuechuaPeru", "qwh"),
    (b"RAJ ", "Rajasthani", "Rajasthani", "raj"),
    (b"RAR ", "Rarotongan", "Rarotongan", "rar"),
    (b"RBU ", "Russian Buriat", "RussianBuriat", "bxr"),
    (b"RCR ", "R-Cree", "RCree", "atj"),
    (b"REJ ", "Rejang", "Rejang", "rej"),
    (b"RIA ", "Riang", "Riang", "ria"),
    (b"RIF ", "Tarifit", "Tarifit", "rif"),
    (b"RIT ", "Ritarungo", "Ritarungo", "rit"),
    (b"RKW ", "Arakwal", "Arakwal", "rkw"),
    (b"RMS ", "Romansh", "Romansh", "roh"),
    (b"RMY ", "Vlax Romani", "VlaxRomani", "rmy"),
    (b"ROM ", "Romanian", "Romanian", "ron"),
    (b"ROY ", "Romany", "Romany", "rom"),
    (b"RSY ", "Rusyn", "Rusyn", "rue"),
    (b"RTM ", "Rotuman", "Rotuman", "rtm"),
    (b"RUA ", "Kinyarwanda", "Kinyarwanda", "kin"),
    (b"RUN ", "Rundi", "Rundi", "run"),
    (b"RUP ", "Aromanian", "Aromanian", "rup"),
    (b"RUS ", "Russian", "Russian", "rus"),
    (b"SAD ", "Sadri", "Sadri", "sck"),
    (b"SAN ", "Sanskrit", "Sanskrit", "san"),
    (b"SAS ", "Sasak", "Sasak", "sas"),
    (b"SAT ", "Santali", "Santali", "sat"),
    (b"SAY ", "Sayisi", "Sayisi", "chp"),
    (b"SCN ", "Sicilian", "Sicilian", "scn"),
    (b"SCO ", "Scots", "Scots", "sco"),
    (b"SEK ", "Sekota", "Sekota", "xan"),
    (b"SEL ", "Selkup", "Selkup", "sel"),
    (b"SGA ", "Old Irish", "OldIrish", "sga"),
    (b"SGO ", "Sango", "Sango", "sag"),
    (b"SGS ", "Samogitian", "Samogitian", "sgs"),
    (b"SHI ", "Tachelhit", "Tachelhit", "shi"),
    (b"SHN ", "Shan", "Shan", "shn"),
    (b"SIB ", "Sibe", "Sibe", "sjo"),
    (b"SID ", "Sidamo", "Sidamo", "sid"),
    (b"SIG ", "Silte Gurage", "SilteGurage", "xst"),
    (b"SKS ", "Skolt Sami", "SkoltSami", "sms"),
    (b"SKY ", "Slovak", "Slovak", "slk"),
    (b"SCS ", "North Slavey", "NorthSlavey", "scs"),
    (b"SLA ", "Slavey", "Slavey", "scs, xsl"),
    (b"SLV ", "Slovenian", "Slovenian", "slv"),
    (b"SML ", "Somali", "Somali", "som"),
    (b"SMO ", "Samoan", "Samoan", "smo"),
    (b"SNA ", "Sena", "Sena", "seh"),
    (b"SNA0", "Shona", "Shona", "sna"),
    (b"SND ", "Sindhi", "Sindhi", "snd"),
    (b"SNH ", "Sinhala (Sinhalese)", "Sinhala", "sin"),
    (b"SNK ", "Soninke", "Soninke", "snk"),
    (b"SOG ", "Sodo Gurage", "SodoGurage", "gru"),
    (b"SOP ", "Songe", "Songe", "sop"),
    (b"SOT ", "Sotho, Southern", "SouthernSotho", "sot"),
    (b"SQI ", "Albanian", "Albanian", "sqi"),
    (b"SRB ", "Serbian", "Serbian", "srp"),
    (b"SRD ", "Sardinian", "Sardinian", "srd"),
    (b"SRK ", "Saraiki", "Saraiki", "skr"),
    (b"SRR ", "Serer", "Serer", "srr"),
    (b"SSL ", "South Slavey", "SouthSlavey", "xsl"),
    (b"SSM ", "Southern Sami", "SouthernSami", "sma"),
    (b"STQ ", "Saterland Frisian", "SaterlandFrisian", "stq"),
    (b"SUK ", "Sukuma", "Sukuma", "suk"),
    (b"SUN ", "Sundanese", "Sundanese", "sun"),
    (b"SUR ", "Suri", "Suri", "suq"),
    (b"SVA ", "Svan", "Svan", "sva"),
    (b"SVE ", "Swedish", "Swedish", "swe"),
    (b"SWA ", "Swadaya Aramaic", "SwadayaAramaic", "aii"),
    (b"SWK ", "Swahili", "Swahili", "swa"),
    (b"SWZ ", "Swati", "Swati", "ssw"),
    (b"SXT ", "Sutu", "Sutu", "ngo"),
    (b"SXU ", "Upper Saxon", "UpperSaxon", "sxu"),
    (b"SYL ", "Sylheti", "Sylheti", "syl"),
    (b"SYR ", "Syriac", "Syriac", "syr"),
    (b"SZL ", "Silesian", "Silesian", "szl"),
    (b"TAB ", "Tabasaran", "Tabasaran", "tab"),
    (b"TAJ ", "Tajiki", "Tajiki", "tgk"),
    (b"TAM ", "Tamil", "Tamil", "tam"),
    (b"TAT ", "Tatar", "Tatar", "tat"),
    (b"TCR ", "TH-Cree", "THCree", "cwd"),
    (b"TDD ", "Dehong Dai", "DehongDai", "tdd"),
    (b"TEL ", "Telugu", "Telugu", "tel"),
    (b"TET ", "Tetum", "Tetum", "tet"),
    (b"TGL ", "Tagalog", "Tagalog", "tgl"),
    (b"TGN ", "Tongan", "Tongan", "ton"),
    (b"TGR ", "Tigre", "Tigre", "tig"),
    (b"TGY ", "Tigrinya", "Tigrinya", "tir"),
    (b"THA ", "Thai", "Thai", "tha"),
    (b"THT ", "Tahitian", "Tahitian", "tah"),
    (b"TIB ", "Tibetan", "Tibetan", "bod"),
    (b"TIV ", "Tiv", "Tiv", "tiv"),
    (b"TKM ", "Turkmen", "Turkmen", "tuk"),
    (b"TMH ", "Tamashek", "Tamashek", "tmh"),
    (b"TMN ", "Temne", "Temne", "tem"),
    (b"TNA ", "Tswana", "Tswana", "tsn"),
    (b"TNE ", "Tundra Nenets", "TundraNenets", "enh"),
    (b"TNG ", "Tonga", "Tonga", "toi"),
    (b"TOD ", "Todo", "Todo", "xal"),
    (b"TOD0", "Toma", "Toma", "tod"),
    (b"TPI ", "Tok Pisin", "TokPisin", "tpi"),
    (b"TRK ", "Turkish", "Turkish", "tur"),
    (b"TSG ", "Tsonga", "Tsonga", "tso"),
    (b"TUA ", "Turoyo Aramaic", "TuroyoAramaic", "tru"),
    (b"TUM ", "Tulu", "Tulu", "tum"),
    (b"TUL ", "Tumbuka", "Tumbuka", "tcy"),
    (b"TUV ", "Tuvin", "Tuvin", "tyv"),
    (b"TVL ", "Tuvalu", "Tuvalu", "tvl"),
    (b"TWI ", "Twi", "Twi", "aka"),
    (b"TYZ ", "Tày", "Tay", "tyz"),
    (b"TZM ", "Tamazight", "Tamazight", "tzm"),
    (b"TZO ", "Tzotzil", "Tzotzil", "tzo"),
    (b"UDM ", "Udmurt", "Udmurt", "udm"),
    (b"UKR ", "Ukrainian", "Ukrainian", "ukr"),
    (b"UMB ", "Umbundu", "Umbundu", "umb"),
    (b"URD ", "Urdu", "Urdu", "urd"),
    (b"USB ", "Upper Sorbian", "UpperSorbian", "hsb"),
    (b"UYG ", "Uyghur", "Uyghur", "uig"),
    (b"UZB ", "Uzbek", "Uzbek", "uzb"),
    (b"VEC ", "Venetian", "Venetian", "vec"),
    (b"VEN ", "Venda", "Venda", "ven"),
    (b"VIT ", "Vietnamese", "Vietnamese", "vie"),
    (b"VOL ", "Volapük", "Volapuk", "vol"),
    (b"VRO ", "Võro", "Voro", "vro"),
    (b"WA  ", "Wa", "Wa", "wbm"),
    (b"WAG ", "Wagdi", "Wagdi", "wbr"),
    (b"WAR ", "Waray-Waray", "WarayWaray", "war"),
    (b"WCR ", "West-Cree", "WestCree", "crk"),
    (b"WEL ", "Welsh", "Welsh", "cym"),
    (b"WLN ", "Walloon", "Walloon", "wln"),
    (b"WLF ", "Wolof", "Wolof", "wol"),
    (b"WTM ", "Mewati", "Mewati", "wtm"),
    (b"XBD ", "Lü", "Lu", "khb"),
    (b"XHS ", "Xhosa", "Xhosa", "xho"),
    (b"XJB ", "Minjangbal", "Minjangbal", "xjb"),
    (b"XOG ", "Soga", "Soga", "xog"),
    (b"XPE ", "Kpelle (Liberia)", "KpelleLiberia", "xpe"),
    (b"YAK ", "Sakha", "Sakha", "sah"),
    (b"YAO ", "Yao", "Yao", "yao"),
    (b"YAP ", "Yapese", "Yapese", "yap"),
    (b"YBA ", "Yoruba", "Yoruba", "yor"),
    (b"YCR ", "Y-Cree", "YCree", "cre"),
    (b"YIC ", "Yi Classic", "YiClassic", ""),
    (b"YIM ", "Yi Modern", "YiModern", "iii"),
    (b"ZEA ", "Zealandic", "Zealandic", "zea"),
    (b"ZGH ", "Standard Morrocan Tamazigh", "StandardMorrocanTamazigh", "zgh"),
    (b"ZHA ", "Zhuang", "Zhuang", "zha"),
    (b"ZHH ", "Chinese, Hong Kong SAR", "Chinese", "zho"),
    (b"ZHP ", "Chinese Phonetic", "ChinesePhonetic", "zho"),
    (b"ZHS ", "Chinese Simplified", "ChineseSimplified", "zho"),
    (b"ZHT ", "Chinese Traditional", "ChineseTraditional", "zho"),
    (b"ZND ", "Zande", "Zande", "zne"),
    (b"ZUL ", "Zulu", "Zulu", "zul"),
    (b"ZZA ", "Zazaki", "Zazaki", "zza"),
];

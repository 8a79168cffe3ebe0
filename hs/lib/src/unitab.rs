// Generated by tools/gen_unitab.py.
/// first, last, per character: NFC, NFD, NFKC, NFKD (empty NFC: unassigned)
pub const TAB: &[(u32, u32, &[[&str; 4]])] = &[
    (0xa0, 0x17f, &[
["\u{a0}","\u{a0}","\u{20}","\u{20}"],
["\u{a1}","\u{a1}","\u{a1}","\u{a1}"],
["\u{a2}","\u{a2}","\u{a2}","\u{a2}"],
["\u{a3}","\u{a3}","\u{a3}","\u{a3}"],
["\u{a4}","\u{a4}","\u{a4}","\u{a4}"],
["\u{a5}","\u{a5}","\u{a5}","\u{a5}"],
["\u{a6}","\u{a6}","\u{a6}","\u{a6}"],
["\u{a7}","\u{a7}","\u{a7}","\u{a7}"],
["\u{a8}","\u{a8}","\u{20}\u{308}","\u{20}\u{308}"],
["\u{a9}","\u{a9}","\u{a9}","\u{a9}"],
["\u{aa}","\u{aa}","\u{61}","\u{61}"],
["\u{ab}","\u{ab}","\u{ab}","\u{ab}"],
["\u{ac}","\u{ac}","\u{ac}","\u{ac}"],
["\u{ad}","\u{ad}","\u{ad}","\u{ad}"],
["\u{ae}","\u{ae}","\u{ae}","\u{ae}"],
["\u{af}","\u{af}","\u{20}\u{304}","\u{20}\u{304}"],
["\u{b0}","\u{b0}","\u{b0}","\u{b0}"],
["\u{b1}","\u{b1}","\u{b1}","\u{b1}"],
["\u{b2}","\u{b2}","\u{32}","\u{32}"],
["\u{b3}","\u{b3}","\u{33}","\u{33}"],
["\u{b4}","\u{b4}","\u{20}\u{301}","\u{20}\u{301}"],
["\u{b5}","\u{b5}","\u{3bc}","\u{3bc}"],
["\u{b6}","\u{b6}","\u{b6}","\u{b6}"],
["\u{b7}","\u{b7}","\u{b7}","\u{b7}"],
["\u{b8}","\u{b8}","\u{20}\u{327}","\u{20}\u{327}"],
["\u{b9}","\u{b9}","\u{31}","\u{31}"],
["\u{ba}","\u{ba}","\u{6f}","\u{6f}"],
["\u{bb}","\u{bb}","\u{bb}","\u{bb}"],
["\u{bc}","\u{bc}","\u{31}\u{2044}\u{34}","\u{31}\u{2044}\u{34}"],
["\u{bd}","\u{bd}","\u{31}\u{2044}\u{32}","\u{31}\u{2044}\u{32}"],
["\u{be}","\u{be}","\u{33}\u{2044}\u{34}","\u{33}\u{2044}\u{34}"],
["\u{bf}","\u{bf}","\u{bf}","\u{bf}"],
["\u{c0}","\u{41}\u{300}","\u{c0}","\u{41}\u{300}"],
["\u{c1}","\u{41}\u{301}","\u{c1}","\u{41}\u{301}"],
["\u{c2}","\u{41}\u{302}","\u{c2}","\u{41}\u{302}"],
["\u{c3}","\u{41}\u{303}","\u{c3}","\u{41}\u{303}"],
["\u{c4}","\u{41}\u{308}","\u{c4}","\u{41}\u{308}"],
["\u{c5}","\u{41}\u{30a}","\u{c5}","\u{41}\u{30a}"],
["\u{c6}","\u{c6}","\u{c6}","\u{c6}"],
["\u{c7}","\u{43}\u{327}","\u{c7}","\u{43}\u{327}"],
["\u{c8}","\u{45}\u{300}","\u{c8}","\u{45}\u{300}"],
["\u{c9}","\u{45}\u{301}","\u{c9}","\u{45}\u{301}"],
["\u{ca}","\u{45}\u{302}","\u{ca}","\u{45}\u{302}"],
["\u{cb}","\u{45}\u{308}","\u{cb}","\u{45}\u{308}"],
["\u{cc}","\u{49}\u{300}","\u{cc}","\u{49}\u{300}"],
["\u{cd}","\u{49}\u{301}","\u{cd}","\u{49}\u{301}"],
["\u{ce}","\u{49}\u{302}","\u{ce}","\u{49}\u{302}"],
["\u{cf}","\u{49}\u{308}","\u{cf}","\u{49}\u{308}"],
["\u{d0}","\u{d0}","\u{d0}","\u{d0}"],
["\u{d1}","\u{4e}\u{303}","\u{d1}","\u{4e}\u{303}"],
["\u{d2}","\u{4f}\u{300}","\u{d2}","\u{4f}\u{300}"],
["\u{d3}","\u{4f}\u{301}","\u{d3}","\u{4f}\u{301}"],
["\u{d4}","\u{4f}\u{302}","\u{d4}","\u{4f}\u{302}"],
["\u{d5}","\u{4f}\u{303}","\u{d5}","\u{4f}\u{303}"],
["\u{d6}","\u{4f}\u{308}","\u{d6}","\u{4f}\u{308}"],
["\u{d7}","\u{d7}","\u{d7}","\u{d7}"],
["\u{d8}","\u{d8}","\u{d8}","\u{d8}"],
["\u{d9}","\u{55}\u{300}","\u{d9}","\u{55}\u{300}"],
["\u{da}","\u{55}\u{301}","\u{da}","\u{55}\u{301}"],
["\u{db}","\u{55}\u{302}","\u{db}","\u{55}\u{302}"],
["\u{dc}","\u{55}\u{308}","\u{dc}","\u{55}\u{308}"],
["\u{dd}","\u{59}\u{301}","\u{dd}","\u{59}\u{301}"],
["\u{de}","\u{de}","\u{de}","\u{de}"],
["\u{df}","\u{df}","\u{df}","\u{df}"],
["\u{e0}","\u{61}\u{300}","\u{e0}","\u{61}\u{300}"],
["\u{e1}","\u{61}\u{301}","\u{e1}","\u{61}\u{301}"],
["\u{e2}","\u{61}\u{302}","\u{e2}","\u{61}\u{302}"],
["\u{e3}","\u{61}\u{303}","\u{e3}","\u{61}\u{303}"],
["\u{e4}","\u{61}\u{308}","\u{e4}","\u{61}\u{308}"],
["\u{e5}","\u{61}\u{30a}","\u{e5}","\u{61}\u{30a}"],
["\u{e6}","\u{e6}","\u{e6}","\u{e6}"],
["\u{e7}","\u{63}\u{327}","\u{e7}","\u{63}\u{327}"],
["\u{e8}","\u{65}\u{300}","\u{e8}","\u{65}\u{300}"],
["\u{e9}","\u{65}\u{301}","\u{e9}","\u{65}\u{301}"],
["\u{ea}","\u{65}\u{302}","\u{ea}","\u{65}\u{302}"],
["\u{eb}","\u{65}\u{308}","\u{eb}","\u{65}\u{308}"],
["\u{ec}","\u{69}\u{300}","\u{ec}","\u{69}\u{300}"],
["\u{ed}","\u{69}\u{301}","\u{ed}","\u{69}\u{301}"],
["\u{ee}","\u{69}\u{302}","\u{ee}","\u{69}\u{302}"],
["\u{ef}","\u{69}\u{308}","\u{ef}","\u{69}\u{308}"],
["\u{f0}","\u{f0}","\u{f0}","\u{f0}"],
["\u{f1}","\u{6e}\u{303}","\u{f1}","\u{6e}\u{303}"],
["\u{f2}","\u{6f}\u{300}","\u{f2}","\u{6f}\u{300}"],
["\u{f3}","\u{6f}\u{301}","\u{f3}","\u{6f}\u{301}"],
["\u{f4}","\u{6f}\u{302}","\u{f4}","\u{6f}\u{302}"],
["\u{f5}","\u{6f}\u{303}","\u{f5}","\u{6f}\u{303}"],
["\u{f6}","\u{6f}\u{308}","\u{f6}","\u{6f}\u{308}"],
["\u{f7}","\u{f7}","\u{f7}","\u{f7}"],
["\u{f8}","\u{f8}","\u{f8}","\u{f8}"],
["\u{f9}","\u{75}\u{300}","\u{f9}","\u{75}\u{300}"],
["\u{fa}","\u{75}\u{301}","\u{fa}","\u{75}\u{301}"],
["\u{fb}","\u{75}\u{302}","\u{fb}","\u{75}\u{302}"],
["\u{fc}","\u{75}\u{308}","\u{fc}","\u{75}\u{308}"],
["\u{fd}","\u{79}\u{301}","\u{fd}","\u{79}\u{301}"],
["\u{fe}","\u{fe}","\u{fe}","\u{fe}"],
["\u{ff}","\u{79}\u{308}","\u{ff}","\u{79}\u{308}"],
["\u{100}","\u{41}\u{304}","\u{100}","\u{41}\u{304}"],
["\u{101}","\u{61}\u{304}","\u{101}","\u{61}\u{304}"],
["\u{102}","\u{41}\u{306}","\u{102}","\u{41}\u{306}"],
["\u{103}","\u{61}\u{306}","\u{103}","\u{61}\u{306}"],
["\u{104}","\u{41}\u{328}","\u{104}","\u{41}\u{328}"],
["\u{105}","\u{61}\u{328}","\u{105}","\u{61}\u{328}"],
["\u{106}","\u{43}\u{301}","\u{106}","\u{43}\u{301}"],
["\u{107}","\u{63}\u{301}","\u{107}","\u{63}\u{301}"],
["\u{108}","\u{43}\u{302}","\u{108}","\u{43}\u{302}"],
["\u{109}","\u{63}\u{302}","\u{109}","\u{63}\u{302}"],
["\u{10a}","\u{43}\u{307}","\u{10a}","\u{43}\u{307}"],
["\u{10b}","\u{63}\u{307}","\u{10b}","\u{63}\u{307}"],
["\u{10c}","\u{43}\u{30c}","\u{10c}","\u{43}\u{30c}"],
["\u{10d}","\u{63}\u{30c}","\u{10d}","\u{63}\u{30c}"],
["\u{10e}","\u{44}\u{30c}","\u{10e}","\u{44}\u{30c}"],
["\u{10f}","\u{64}\u{30c}","\u{10f}","\u{64}\u{30c}"],
["\u{110}","\u{110}","\u{110}","\u{110}"],
["\u{111}","\u{111}","\u{111}","\u{111}"],
["\u{112}","\u{45}\u{304}","\u{112}","\u{45}\u{304}"],
["\u{113}","\u{65}\u{304}","\u{113}","\u{65}\u{304}"],
["\u{114}","\u{45}\u{306}","\u{114}","\u{45}\u{306}"],
["\u{115}","\u{65}\u{306}","\u{115}","\u{65}\u{306}"],
["\u{116}","\u{45}\u{307}","\u{116}","\u{45}\u{307}"],
["\u{117}","\u{65}\u{307}","\u{117}","\u{65}\u{307}"],
["\u{118}","\u{45}\u{328}","\u{118}","\u{45}\u{328}"],
["\u{119}","\u{65}\u{328}","\u{119}","\u{65}\u{328}"],
["\u{11a}","\u{45}\u{30c}","\u{11a}","\u{45}\u{30c}"],
["\u{11b}","\u{65}\u{30c}","\u{11b}","\u{65}\u{30c}"],
["\u{11c}","\u{47}\u{302}","\u{11c}","\u{47}\u{302}"],
["\u{11d}","\u{67}\u{302}","\u{11d}","\u{67}\u{302}"],
["\u{11e}","\u{47}\u{306}","\u{11e}","\u{47}\u{306}"],
["\u{11f}","\u{67}\u{306}","\u{11f}","\u{67}\u{306}"],
["\u{120}","\u{47}\u{307}","\u{120}","\u{47}\u{307}"],
["\u{121}","\u{67}\u{307}","\u{121}","\u{67}\u{307}"],
["\u{122}","\u{47}\u{327}","\u{122}","\u{47}\u{327}"],
["\u{123}","\u{67}\u{327}","\u{123}","\u{67}\u{327}"],
["\u{124}","\u{48}\u{302}","\u{124}","\u{48}\u{302}"],
["\u{125}","\u{68}\u{302}","\u{125}","\u{68}\u{302}"],
["\u{126}","\u{126}","\u{126}","\u{126}"],
["\u{127}","\u{127}","\u{127}","\u{127}"],
["\u{128}","\u{49}\u{303}","\u{128}","\u{49}\u{303}"],
["\u{129}","\u{69}\u{303}","\u{129}","\u{69}\u{303}"],
["\u{12a}","\u{49}\u{304}","\u{12a}","\u{49}\u{304}"],
["\u{12b}","\u{69}\u{304}","\u{12b}","\u{69}\u{304}"],
["\u{12c}","\u{49}\u{306}","\u{12c}","\u{49}\u{306}"],
["\u{12d}","\u{69}\u{306}","\u{12d}","\u{69}\u{306}"],
["\u{12e}","\u{49}\u{328}","\u{12e}","\u{49}\u{328}"],
["\u{12f}","\u{69}\u{328}","\u{12f}","\u{69}\u{328}"],
["\u{130}","\u{49}\u{307}","\u{130}","\u{49}\u{307}"],
["\u{131}","\u{131}","\u{131}","\u{131}"],
["\u{132}","\u{132}","\u{49}\u{4a}","\u{49}\u{4a}"],
["\u{133}","\u{133}","\u{69}\u{6a}","\u{69}\u{6a}"],
["\u{134}","\u{4a}\u{302}","\u{134}","\u{4a}\u{302}"],
["\u{135}","\u{6a}\u{302}","\u{135}","\u{6a}\u{302}"],
["\u{136}","\u{4b}\u{327}","\u{136}","\u{4b}\u{327}"],
["\u{137}","\u{6b}\u{327}","\u{137}","\u{6b}\u{327}"],
["\u{138}","\u{138}","\u{138}","\u{138}"],
["\u{139}","\u{4c}\u{301}","\u{139}","\u{4c}\u{301}"],
["\u{13a}","\u{6c}\u{301}","\u{13a}","\u{6c}\u{301}"],
["\u{13b}","\u{4c}\u{327}","\u{13b}","\u{4c}\u{327}"],
["\u{13c}","\u{6c}\u{327}","\u{13c}","\u{6c}\u{327}"],
["\u{13d}","\u{4c}\u{30c}","\u{13d}","\u{4c}\u{30c}"],
["\u{13e}","\u{6c}\u{30c}","\u{13e}","\u{6c}\u{30c}"],
["\u{13f}","\u{13f}","\u{4c}\u{b7}","\u{4c}\u{b7}"],
["\u{140}","\u{140}","\u{6c}\u{b7}","\u{6c}\u{b7}"],
["\u{141}","\u{141}","\u{141}","\u{141}"],
["\u{142}","\u{142}","\u{142}","\u{142}"],
["\u{143}","\u{4e}\u{301}","\u{143}","\u{4e}\u{301}"],
["\u{144}","\u{6e}\u{301}","\u{144}","\u{6e}\u{301}"],
["\u{145}","\u{4e}\u{327}","\u{145}","\u{4e}\u{327}"],
["\u{146}","\u{6e}\u{327}","\u{146}","\u{6e}\u{327}"],
["\u{147}","\u{4e}\u{30c}","\u{147}","\u{4e}\u{30c}"],
["\u{148}","\u{6e}\u{30c}","\u{148}","\u{6e}\u{30c}"],
["\u{149}","\u{149}","\u{2bc}\u{6e}","\u{2bc}\u{6e}"],
["\u{14a}","\u{14a}","\u{14a}","\u{14a}"],
["\u{14b}","\u{14b}","\u{14b}","\u{14b}"],
["\u{14c}","\u{4f}\u{304}","\u{14c}","\u{4f}\u{304}"],
["\u{14d}","\u{6f}\u{304}","\u{14d}","\u{6f}\u{304}"],
["\u{14e}","\u{4f}\u{306}","\u{14e}","\u{4f}\u{306}"],
["\u{14f}","\u{6f}\u{306}","\u{14f}","\u{6f}\u{306}"],
["\u{150}","\u{4f}\u{30b}","\u{150}","\u{4f}\u{30b}"],
["\u{151}","\u{6f}\u{30b}","\u{151}","\u{6f}\u{30b}"],
["\u{152}","\u{152}","\u{152}","\u{152}"],
["\u{153}","\u{153}","\u{153}","\u{153}"],
["\u{154}","\u{52}\u{301}","\u{154}","\u{52}\u{301}"],
["\u{155}","\u{72}\u{301}","\u{155}","\u{72}\u{301}"],
["\u{156}","\u{52}\u{327}","\u{156}","\u{52}\u{327}"],
["\u{157}","\u{72}\u{327}","\u{157}","\u{72}\u{327}"],
["\u{158}","\u{52}\u{30c}","\u{158}","\u{52}\u{30c}"],
["\u{159}","\u{72}\u{30c}","\u{159}","\u{72}\u{30c}"],
["\u{15a}","\u{53}\u{301}","\u{15a}","\u{53}\u{301}"],
["\u{15b}","\u{73}\u{301}","\u{15b}","\u{73}\u{301}"],
["\u{15c}","\u{53}\u{302}","\u{15c}","\u{53}\u{302}"],
["\u{15d}","\u{73}\u{302}","\u{15d}","\u{73}\u{302}"],
["\u{15e}","\u{53}\u{327}","\u{15e}","\u{53}\u{327}"],
["\u{15f}","\u{73}\u{327}","\u{15f}","\u{73}\u{327}"],
["\u{160}","\u{53}\u{30c}","\u{160}","\u{53}\u{30c}"],
["\u{161}","\u{73}\u{30c}","\u{161}","\u{73}\u{30c}"],
["\u{162}","\u{54}\u{327}","\u{162}","\u{54}\u{327}"],
["\u{163}","\u{74}\u{327}","\u{163}","\u{74}\u{327}"],
["\u{164}","\u{54}\u{30c}","\u{164}","\u{54}\u{30c}"],
["\u{165}","\u{74}\u{30c}","\u{165}","\u{74}\u{30c}"],
["\u{166}","\u{166}","\u{166}","\u{166}"],
["\u{167}","\u{167}","\u{167}","\u{167}"],
["\u{168}","\u{55}\u{303}","\u{168}","\u{55}\u{303}"],
["\u{169}","\u{75}\u{303}","\u{169}","\u{75}\u{303}"],
["\u{16a}","\u{55}\u{304}","\u{16a}","\u{55}\u{304}"],
["\u{16b}","\u{75}\u{304}","\u{16b}","\u{75}\u{304}"],
["\u{16c}","\u{55}\u{306}","\u{16c}","\u{55}\u{306}"],
["\u{16d}","\u{75}\u{306}","\u{16d}","\u{75}\u{306}"],
["\u{16e}","\u{55}\u{30a}","\u{16e}","\u{55}\u{30a}"],
["\u{16f}","\u{75}\u{30a}","\u{16f}","\u{75}\u{30a}"],
["\u{170}","\u{55}\u{30b}","\u{170}","\u{55}\u{30b}"],
["\u{171}","\u{75}\u{30b}","\u{171}","\u{75}\u{30b}"],
["\u{172}","\u{55}\u{328}","\u{172}","\u{55}\u{328}"],
["\u{173}","\u{75}\u{328}","\u{173}","\u{75}\u{328}"],
["\u{174}","\u{57}\u{302}","\u{174}","\u{57}\u{302}"],
["\u{175}","\u{77}\u{302}","\u{175}","\u{77}\u{302}"],
["\u{176}","\u{59}\u{302}","\u{176}","\u{59}\u{302}"],
["\u{177}","\u{79}\u{302}","\u{177}","\u{79}\u{302}"],
["\u{178}","\u{59}\u{308}","\u{178}","\u{59}\u{308}"],
["\u{179}","\u{5a}\u{301}","\u{179}","\u{5a}\u{301}"],
["\u{17a}","\u{7a}\u{301}","\u{17a}","\u{7a}\u{301}"],
["\u{17b}","\u{5a}\u{307}","\u{17b}","\u{5a}\u{307}"],
["\u{17c}","\u{7a}\u{307}","\u{17c}","\u{7a}\u{307}"],
["\u{17d}","\u{5a}\u{30c}","\u{17d}","\u{5a}\u{30c}"],
["\u{17e}","\u{7a}\u{30c}","\u{17e}","\u{7a}\u{30c}"],
["\u{17f}","\u{17f}","\u{73}","\u{73}"],
    ]),
    (0x1e00, 0x1eff, &[
["\u{1e00}","\u{41}\u{325}","\u{1e00}","\u{41}\u{325}"],
["\u{1e01}","\u{61}\u{325}","\u{1e01}","\u{61}\u{325}"],
["\u{1e02}","\u{42}\u{307}","\u{1e02}","\u{42}\u{307}"],
["\u{1e03}","\u{62}\u{307}","\u{1e03}","\u{62}\u{307}"],
["\u{1e04}","\u{42}\u{323}","\u{1e04}","\u{42}\u{323}"],
["\u{1e05}","\u{62}\u{323}","\u{1e05}","\u{62}\u{323}"],
["\u{1e06}","\u{42}\u{331}","\u{1e06}","\u{42}\u{331}"],
["\u{1e07}","\u{62}\u{331}","\u{1e07}","\u{62}\u{331}"],
["\u{1e08}","\u{43}\u{327}\u{301}","\u{1e08}","\u{43}\u{327}\u{301}"],
["\u{1e09}","\u{63}\u{327}\u{301}","\u{1e09}","\u{63}\u{327}\u{301}"],
["\u{1e0a}","\u{44}\u{307}","\u{1e0a}","\u{44}\u{307}"],
["\u{1e0b}","\u{64}\u{307}","\u{1e0b}","\u{64}\u{307}"],
["\u{1e0c}","\u{44}\u{323}","\u{1e0c}","\u{44}\u{323}"],
["\u{1e0d}","\u{64}\u{323}","\u{1e0d}","\u{64}\u{323}"],
["\u{1e0e}","\u{44}\u{331}","\u{1e0e}","\u{44}\u{331}"],
["\u{1e0f}","\u{64}\u{331}","\u{1e0f}","\u{64}\u{331}"],
["\u{1e10}","\u{44}\u{327}","\u{1e10}","\u{44}\u{327}"],
["\u{1e11}","\u{64}\u{327}","\u{1e11}","\u{64}\u{327}"],
["\u{1e12}","\u{44}\u{32d}","\u{1e12}","\u{44}\u{32d}"],
["\u{1e13}","\u{64}\u{32d}","\u{1e13}","\u{64}\u{32d}"],
["\u{1e14}","\u{45}\u{304}\u{300}","\u{1e14}","\u{45}\u{304}\u{300}"],
["\u{1e15}","\u{65}\u{304}\u{300}","\u{1e15}","\u{65}\u{304}\u{300}"],
["\u{1e16}","\u{45}\u{304}\u{301}","\u{1e16}","\u{45}\u{304}\u{301}"],
["\u{1e17}","\u{65}\u{304}\u{301}","\u{1e17}","\u{65}\u{304}\u{301}"],
["\u{1e18}","\u{45}\u{32d}","\u{1e18}","\u{45}\u{32d}"],
["\u{1e19}","\u{65}\u{32d}","\u{1e19}","\u{65}\u{32d}"],
["\u{1e1a}","\u{45}\u{330}","\u{1e1a}","\u{45}\u{330}"],
["\u{1e1b}","\u{65}\u{330}","\u{1e1b}","\u{65}\u{330}"],
["\u{1e1c}","\u{45}\u{327}\u{306}","\u{1e1c}","\u{45}\u{327}\u{306}"],
["\u{1e1d}","\u{65}\u{327}\u{306}","\u{1e1d}","\u{65}\u{327}\u{306}"],
["\u{1e1e}","\u{46}\u{307}","\u{1e1e}","\u{46}\u{307}"],
["\u{1e1f}","\u{66}\u{307}","\u{1e1f}","\u{66}\u{307}"],
["\u{1e20}","\u{47}\u{304}","\u{1e20}","\u{47}\u{304}"],
["\u{1e21}","\u{67}\u{304}","\u{1e21}","\u{67}\u{304}"],
["\u{1e22}","\u{48}\u{307}","\u{1e22}","\u{48}\u{307}"],
["\u{1e23}","\u{68}\u{307}","\u{1e23}","\u{68}\u{307}"],
["\u{1e24}","\u{48}\u{323}","\u{1e24}","\u{48}\u{323}"],
["\u{1e25}","\u{68}\u{323}","\u{1e25}","\u{68}\u{323}"],
["\u{1e26}","\u{48}\u{308}","\u{1e26}","\u{48}\u{308}"],
["\u{1e27}","\u{68}\u{308}","\u{1e27}","\u{68}\u{308}"],
["\u{1e28}","\u{48}\u{327}","\u{1e28}","\u{48}\u{327}"],
["\u{1e29}","\u{68}\u{327}","\u{1e29}","\u{68}\u{327}"],
["\u{1e2a}","\u{48}\u{32e}","\u{1e2a}","\u{48}\u{32e}"],
["\u{1e2b}","\u{68}\u{32e}","\u{1e2b}","\u{68}\u{32e}"],
["\u{1e2c}","\u{49}\u{330}","\u{1e2c}","\u{49}\u{330}"],
["\u{1e2d}","\u{69}\u{330}","\u{1e2d}","\u{69}\u{330}"],
["\u{1e2e}","\u{49}\u{308}\u{301}","\u{1e2e}","\u{49}\u{308}\u{301}"],
["\u{1e2f}","\u{69}\u{308}\u{301}","\u{1e2f}","\u{69}\u{308}\u{301}"],
["\u{1e30}","\u{4b}\u{301}","\u{1e30}","\u{4b}\u{301}"],
["\u{1e31}","\u{6b}\u{301}","\u{1e31}","\u{6b}\u{301}"],
["\u{1e32}","\u{4b}\u{323}","\u{1e32}","\u{4b}\u{323}"],
["\u{1e33}","\u{6b}\u{323}","\u{1e33}","\u{6b}\u{323}"],
["\u{1e34}","\u{4b}\u{331}","\u{1e34}","\u{4b}\u{331}"],
["\u{1e35}","\u{6b}\u{331}","\u{1e35}","\u{6b}\u{331}"],
["\u{1e36}","\u{4c}\u{323}","\u{1e36}","\u{4c}\u{323}"],
["\u{1e37}","\u{6c}\u{323}","\u{1e37}","\u{6c}\u{323}"],
["\u{1e38}","\u{4c}\u{323}\u{304}","\u{1e38}","\u{4c}\u{323}\u{304}"],
["\u{1e39}","\u{6c}\u{323}\u{304}","\u{1e39}","\u{6c}\u{323}\u{304}"],
["\u{1e3a}","\u{4c}\u{331}","\u{1e3a}","\u{4c}\u{331}"],
["\u{1e3b}","\u{6c}\u{331}","\u{1e3b}","\u{6c}\u{331}"],
["\u{1e3c}","\u{4c}\u{32d}","\u{1e3c}","\u{4c}\u{32d}"],
["\u{1e3d}","\u{6c}\u{32d}","\u{1e3d}","\u{6c}\u{32d}"],
["\u{1e3e}","\u{4d}\u{301}","\u{1e3e}","\u{4d}\u{301}"],
["\u{1e3f}","\u{6d}\u{301}","\u{1e3f}","\u{6d}\u{301}"],
["\u{1e40}","\u{4d}\u{307}","\u{1e40}","\u{4d}\u{307}"],
["\u{1e41}","\u{6d}\u{307}","\u{1e41}","\u{6d}\u{307}"],
["\u{1e42}","\u{4d}\u{323}","\u{1e42}","\u{4d}\u{323}"],
["\u{1e43}","\u{6d}\u{323}","\u{1e43}","\u{6d}\u{323}"],
["\u{1e44}","\u{4e}\u{307}","\u{1e44}","\u{4e}\u{307}"],
["\u{1e45}","\u{6e}\u{307}","\u{1e45}","\u{6e}\u{307}"],
["\u{1e46}","\u{4e}\u{323}","\u{1e46}","\u{4e}\u{323}"],
["\u{1e47}","\u{6e}\u{323}","\u{1e47}","\u{6e}\u{323}"],
["\u{1e48}","\u{4e}\u{331}","\u{1e48}","\u{4e}\u{331}"],
["\u{1e49}","\u{6e}\u{331}","\u{1e49}","\u{6e}\u{331}"],
["\u{1e4a}","\u{4e}\u{32d}","\u{1e4a}","\u{4e}\u{32d}"],
["\u{1e4b}","\u{6e}\u{32d}","\u{1e4b}","\u{6e}\u{32d}"],
["\u{1e4c}","\u{4f}\u{303}\u{301}","\u{1e4c}","\u{4f}\u{303}\u{301}"],
["\u{1e4d}","\u{6f}\u{303}\u{301}","\u{1e4d}","\u{6f}\u{303}\u{301}"],
["\u{1e4e}","\u{4f}\u{303}\u{308}","\u{1e4e}","\u{4f}\u{303}\u{308}"],
["\u{1e4f}","\u{6f}\u{303}\u{308}","\u{1e4f}","\u{6f}\u{303}\u{308}"],
["\u{1e50}","\u{4f}\u{304}\u{300}","\u{1e50}","\u{4f}\u{304}\u{300}"],
["\u{1e51}","\u{6f}\u{304}\u{300}","\u{1e51}","\u{6f}\u{304}\u{300}"],
["\u{1e52}","\u{4f}\u{304}\u{301}","\u{1e52}","\u{4f}\u{304}\u{301}"],
["\u{1e53}","\u{6f}\u{304}\u{301}","\u{1e53}","\u{6f}\u{304}\u{301}"],
["\u{1e54}","\u{50}\u{301}","\u{1e54}","\u{50}\u{301}"],
["\u{1e55}","\u{70}\u{301}","\u{1e55}","\u{70}\u{301}"],
["\u{1e56}","\u{50}\u{307}","\u{1e56}","\u{50}\u{307}"],
["\u{1e57}","\u{70}\u{307}","\u{1e57}","\u{70}\u{307}"],
["\u{1e58}","\u{52}\u{307}","\u{1e58}","\u{52}\u{307}"],
["\u{1e59}","\u{72}\u{307}","\u{1e59}","\u{72}\u{307}"],
["\u{1e5a}","\u{52}\u{323}","\u{1e5a}","\u{52}\u{323}"],
["\u{1e5b}","\u{72}\u{323}","\u{1e5b}","\u{72}\u{323}"],
["\u{1e5c}","\u{52}\u{323}\u{304}","\u{1e5c}","\u{52}\u{323}\u{304}"],
["\u{1e5d}","\u{72}\u{323}\u{304}","\u{1e5d}","\u{72}\u{323}\u{304}"],
["\u{1e5e}","\u{52}\u{331}","\u{1e5e}","\u{52}\u{331}"],
["\u{1e5f}","\u{72}\u{331}","\u{1e5f}","\u{72}\u{331}"],
["\u{1e60}","\u{53}\u{307}","\u{1e60}","\u{53}\u{307}"],
["\u{1e61}","\u{73}\u{307}","\u{1e61}","\u{73}\u{307}"],
["\u{1e62}","\u{53}\u{323}","\u{1e62}","\u{53}\u{323}"],
["\u{1e63}","\u{73}\u{323}","\u{1e63}","\u{73}\u{323}"],
["\u{1e64}","\u{53}\u{301}\u{307}","\u{1e64}","\u{53}\u{301}\u{307}"],
["\u{1e65}","\u{73}\u{301}\u{307}","\u{1e65}","\u{73}\u{301}\u{307}"],
["\u{1e66}","\u{53}\u{30c}\u{307}","\u{1e66}","\u{53}\u{30c}\u{307}"],
["\u{1e67}","\u{73}\u{30c}\u{307}","\u{1e67}","\u{73}\u{30c}\u{307}"],
["\u{1e68}","\u{53}\u{323}\u{307}","\u{1e68}","\u{53}\u{323}\u{307}"],
["\u{1e69}","\u{73}\u{323}\u{307}","\u{1e69}","\u{73}\u{323}\u{307}"],
["\u{1e6a}","\u{54}\u{307}","\u{1e6a}","\u{54}\u{307}"],
["\u{1e6b}","\u{74}\u{307}","\u{1e6b}","\u{74}\u{307}"],
["\u{1e6c}","\u{54}\u{323}","\u{1e6c}","\u{54}\u{323}"],
["\u{1e6d}","\u{74}\u{323}","\u{1e6d}","\u{74}\u{323}"],
["\u{1e6e}","\u{54}\u{331}","\u{1e6e}","\u{54}\u{331}"],
["\u{1e6f}","\u{74}\u{331}","\u{1e6f}","\u{74}\u{331}"],
["\u{1e70}","\u{54}\u{32d}","\u{1e70}","\u{54}\u{32d}"],
["\u{1e71}","\u{74}\u{32d}","\u{1e71}","\u{74}\u{32d}"],
["\u{1e72}","\u{55}\u{324}","\u{1e72}","\u{55}\u{324}"],
["\u{1e73}","\u{75}\u{324}","\u{1e73}","\u{75}\u{324}"],
["\u{1e74}","\u{55}\u{330}","\u{1e74}","\u{55}\u{330}"],
["\u{1e75}","\u{75}\u{330}","\u{1e75}","\u{75}\u{330}"],
["\u{1e76}","\u{55}\u{32d}","\u{1e76}","\u{55}\u{32d}"],
["\u{1e77}","\u{75}\u{32d}","\u{1e77}","\u{75}\u{32d}"],
["\u{1e78}","\u{55}\u{303}\u{301}","\u{1e78}","\u{55}\u{303}\u{301}"],
["\u{1e79}","\u{75}\u{303}\u{301}","\u{1e79}","\u{75}\u{303}\u{301}"],
["\u{1e7a}","\u{55}\u{304}\u{308}","\u{1e7a}","\u{55}\u{304}\u{308}"],
["\u{1e7b}","\u{75}\u{304}\u{308}","\u{1e7b}","\u{75}\u{304}\u{308}"],
["\u{1e7c}","\u{56}\u{303}","\u{1e7c}","\u{56}\u{303}"],
["\u{1e7d}","\u{76}\u{303}","\u{1e7d}","\u{76}\u{303}"],
["\u{1e7e}","\u{56}\u{323}","\u{1e7e}","\u{56}\u{323}"],
["\u{1e7f}","\u{76}\u{323}","\u{1e7f}","\u{76}\u{323}"],
["\u{1e80}","\u{57}\u{300}","\u{1e80}","\u{57}\u{300}"],
["\u{1e81}","\u{77}\u{300}","\u{1e81}","\u{77}\u{300}"],
["\u{1e82}","\u{57}\u{301}","\u{1e82}","\u{57}\u{301}"],
["\u{1e83}","\u{77}\u{301}","\u{1e83}","\u{77}\u{301}"],
["\u{1e84}","\u{57}\u{308}","\u{1e84}","\u{57}\u{308}"],
["\u{1e85}","\u{77}\u{308}","\u{1e85}","\u{77}\u{308}"],
["\u{1e86}","\u{57}\u{307}","\u{1e86}","\u{57}\u{307}"],
["\u{1e87}","\u{77}\u{307}","\u{1e87}","\u{77}\u{307}"],
["\u{1e88}","\u{57}\u{323}","\u{1e88}","\u{57}\u{323}"],
["\u{1e89}","\u{77}\u{323}","\u{1e89}","\u{77}\u{323}"],
["\u{1e8a}","\u{58}\u{307}","\u{1e8a}","\u{58}\u{307}"],
["\u{1e8b}","\u{78}\u{307}","\u{1e8b}","\u{78}\u{307}"],
["\u{1e8c}","\u{58}\u{308}","\u{1e8c}","\u{58}\u{308}"],
["\u{1e8d}","\u{78}\u{308}","\u{1e8d}","\u{78}\u{308}"],
["\u{1e8e}","\u{59}\u{307}","\u{1e8e}","\u{59}\u{307}"],
["\u{1e8f}","\u{79}\u{307}","\u{1e8f}","\u{79}\u{307}"],
["\u{1e90}","\u{5a}\u{302}","\u{1e90}","\u{5a}\u{302}"],
["\u{1e91}","\u{7a}\u{302}","\u{1e91}","\u{7a}\u{302}"],
["\u{1e92}","\u{5a}\u{323}","\u{1e92}","\u{5a}\u{323}"],
["\u{1e93}","\u{7a}\u{323}","\u{1e93}","\u{7a}\u{323}"],
["\u{1e94}","\u{5a}\u{331}","\u{1e94}","\u{5a}\u{331}"],
["\u{1e95}","\u{7a}\u{331}","\u{1e95}","\u{7a}\u{331}"],
["\u{1e96}","\u{68}\u{331}","\u{1e96}","\u{68}\u{331}"],
["\u{1e97}","\u{74}\u{308}","\u{1e97}","\u{74}\u{308}"],
["\u{1e98}","\u{77}\u{30a}","\u{1e98}","\u{77}\u{30a}"],
["\u{1e99}","\u{79}\u{30a}","\u{1e99}","\u{79}\u{30a}"],
["\u{1e9a}","\u{1e9a}","\u{61}\u{2be}","\u{61}\u{2be}"],
["\u{1e9b}","\u{17f}\u{307}","\u{1e61}","\u{73}\u{307}"],
["\u{1e9c}","\u{1e9c}","\u{1e9c}","\u{1e9c}"],
["\u{1e9d}","\u{1e9d}","\u{1e9d}","\u{1e9d}"],
["\u{1e9e}","\u{1e9e}","\u{1e9e}","\u{1e9e}"],
["\u{1e9f}","\u{1e9f}","\u{1e9f}","\u{1e9f}"],
["\u{1ea0}","\u{41}\u{323}","\u{1ea0}","\u{41}\u{323}"],
["\u{1ea1}","\u{61}\u{323}","\u{1ea1}","\u{61}\u{323}"],
["\u{1ea2}","\u{41}\u{309}","\u{1ea2}","\u{41}\u{309}"],
["\u{1ea3}","\u{61}\u{309}","\u{1ea3}","\u{61}\u{309}"],
["\u{1ea4}","\u{41}\u{302}\u{301}","\u{1ea4}","\u{41}\u{302}\u{301}"],
["\u{1ea5}","\u{61}\u{302}\u{301}","\u{1ea5}","\u{61}\u{302}\u{301}"],
["\u{1ea6}","\u{41}\u{302}\u{300}","\u{1ea6}","\u{41}\u{302}\u{300}"],
["\u{1ea7}","\u{61}\u{302}\u{300}","\u{1ea7}","\u{61}\u{302}\u{300}"],
["\u{1ea8}","\u{41}\u{302}\u{309}","\u{1ea8}","\u{41}\u{302}\u{309}"],
["\u{1ea9}","\u{61}\u{302}\u{309}","\u{1ea9}","\u{61}\u{302}\u{309}"],
["\u{1eaa}","\u{41}\u{302}\u{303}","\u{1eaa}","\u{41}\u{302}\u{303}"],
["\u{1eab}","\u{61}\u{302}\u{303}","\u{1eab}","\u{61}\u{302}\u{303}"],
["\u{1eac}","\u{41}\u{323}\u{302}","\u{1eac}","\u{41}\u{323}\u{302}"],
["\u{1ead}","\u{61}\u{323}\u{302}","\u{1ead}","\u{61}\u{323}\u{302}"],
["\u{1eae}","\u{41}\u{306}\u{301}","\u{1eae}","\u{41}\u{306}\u{301}"],
["\u{1eaf}","\u{61}\u{306}\u{301}","\u{1eaf}","\u{61}\u{306}\u{301}"],
["\u{1eb0}","\u{41}\u{306}\u{300}","\u{1eb0}","\u{41}\u{306}\u{300}"],
["\u{1eb1}","\u{61}\u{306}\u{300}","\u{1eb1}","\u{61}\u{306}\u{300}"],
["\u{1eb2}","\u{41}\u{306}\u{309}","\u{1eb2}","\u{41}\u{306}\u{309}"],
["\u{1eb3}","\u{61}\u{306}\u{309}","\u{1eb3}","\u{61}\u{306}\u{309}"],
["\u{1eb4}","\u{41}\u{306}\u{303}","\u{1eb4}","\u{41}\u{306}\u{303}"],
["\u{1eb5}","\u{61}\u{306}\u{303}","\u{1eb5}","\u{61}\u{306}\u{303}"],
["\u{1eb6}","\u{41}\u{323}\u{306}","\u{1eb6}","\u{41}\u{323}\u{306}"],
["\u{1eb7}","\u{61}\u{323}\u{306}","\u{1eb7}","\u{61}\u{323}\u{306}"],
["\u{1eb8}","\u{45}\u{323}","\u{1eb8}","\u{45}\u{323}"],
["\u{1eb9}","\u{65}\u{323}","\u{1eb9}","\u{65}\u{323}"],
["\u{1eba}","\u{45}\u{309}","\u{1eba}","\u{45}\u{309}"],
["\u{1ebb}","\u{65}\u{309}","\u{1ebb}","\u{65}\u{309}"],
["\u{1ebc}","\u{45}\u{303}","\u{1ebc}","\u{45}\u{303}"],
["\u{1ebd}","\u{65}\u{303}","\u{1ebd}","\u{65}\u{303}"],
["\u{1ebe}","\u{45}\u{302}\u{301}","\u{1ebe}","\u{45}\u{302}\u{301}"],
["\u{1ebf}","\u{65}\u{302}\u{301}","\u{1ebf}","\u{65}\u{302}\u{301}"],
["\u{1ec0}","\u{45}\u{302}\u{300}","\u{1ec0}","\u{45}\u{302}\u{300}"],
["\u{1ec1}","\u{65}\u{302}\u{300}","\u{1ec1}","\u{65}\u{302}\u{300}"],
["\u{1ec2}","\u{45}\u{302}\u{309}","\u{1ec2}","\u{45}\u{302}\u{309}"],
["\u{1ec3}","\u{65}\u{302}\u{309}","\u{1ec3}","\u{65}\u{302}\u{309}"],
["\u{1ec4}","\u{45}\u{302}\u{303}","\u{1ec4}","\u{45}\u{302}\u{303}"],
["\u{1ec5}","\u{65}\u{302}\u{303}","\u{1ec5}","\u{65}\u{302}\u{303}"],
["\u{1ec6}","\u{45}\u{323}\u{302}","\u{1ec6}","\u{45}\u{323}\u{302}"],
["\u{1ec7}","\u{65}\u{323}\u{302}","\u{1ec7}","\u{65}\u{323}\u{302}"],
["\u{1ec8}","\u{49}\u{309}","\u{1ec8}","\u{49}\u{309}"],
["\u{1ec9}","\u{69}\u{309}","\u{1ec9}","\u{69}\u{309}"],
["\u{1eca}","\u{49}\u{323}","\u{1eca}","\u{49}\u{323}"],
["\u{1ecb}","\u{69}\u{323}","\u{1ecb}","\u{69}\u{323}"],
["\u{1ecc}","\u{4f}\u{323}","\u{1ecc}","\u{4f}\u{323}"],
["\u{1ecd}","\u{6f}\u{323}","\u{1ecd}","\u{6f}\u{323}"],
["\u{1ece}","\u{4f}\u{309}","\u{1ece}","\u{4f}\u{309}"],
["\u{1ecf}","\u{6f}\u{309}","\u{1ecf}","\u{6f}\u{309}"],
["\u{1ed0}","\u{4f}\u{302}\u{301}","\u{1ed0}","\u{4f}\u{302}\u{301}"],
["\u{1ed1}","\u{6f}\u{302}\u{301}","\u{1ed1}","\u{6f}\u{302}\u{301}"],
["\u{1ed2}","\u{4f}\u{302}\u{300}","\u{1ed2}","\u{4f}\u{302}\u{300}"],
["\u{1ed3}","\u{6f}\u{302}\u{300}","\u{1ed3}","\u{6f}\u{302}\u{300}"],
["\u{1ed4}","\u{4f}\u{302}\u{309}","\u{1ed4}","\u{4f}\u{302}\u{309}"],
["\u{1ed5}","\u{6f}\u{302}\u{309}","\u{1ed5}","\u{6f}\u{302}\u{309}"],
["\u{1ed6}","\u{4f}\u{302}\u{303}","\u{1ed6}","\u{4f}\u{302}\u{303}"],
["\u{1ed7}","\u{6f}\u{302}\u{303}","\u{1ed7}","\u{6f}\u{302}\u{303}"],
["\u{1ed8}","\u{4f}\u{323}\u{302}","\u{1ed8}","\u{4f}\u{323}\u{302}"],
["\u{1ed9}","\u{6f}\u{323}\u{302}","\u{1ed9}","\u{6f}\u{323}\u{302}"],
["\u{1eda}","\u{4f}\u{31b}\u{301}","\u{1eda}","\u{4f}\u{31b}\u{301}"],
["\u{1edb}","\u{6f}\u{31b}\u{301}","\u{1edb}","\u{6f}\u{31b}\u{301}"],
["\u{1edc}","\u{4f}\u{31b}\u{300}","\u{1edc}","\u{4f}\u{31b}\u{300}"],
["\u{1edd}","\u{6f}\u{31b}\u{300}","\u{1edd}","\u{6f}\u{31b}\u{300}"],
["\u{1ede}","\u{4f}\u{31b}\u{309}","\u{1ede}","\u{4f}\u{31b}\u{309}"],
["\u{1edf}","\u{6f}\u{31b}\u{309}","\u{1edf}","\u{6f}\u{31b}\u{309}"],
["\u{1ee0}","\u{4f}\u{31b}\u{303}","\u{1ee0}","\u{4f}\u{31b}\u{303}"],
["\u{1ee1}","\u{6f}\u{31b}\u{303}","\u{1ee1}","\u{6f}\u{31b}\u{303}"],
["\u{1ee2}","\u{4f}\u{31b}\u{323}","\u{1ee2}","\u{4f}\u{31b}\u{323}"],
["\u{1ee3}","\u{6f}\u{31b}\u{323}","\u{1ee3}","\u{6f}\u{31b}\u{323}"],
["\u{1ee4}","\u{55}\u{323}","\u{1ee4}","\u{55}\u{323}"],
["\u{1ee5}","\u{75}\u{323}","\u{1ee5}","\u{75}\u{323}"],
["\u{1ee6}","\u{55}\u{309}","\u{1ee6}","\u{55}\u{309}"],
["\u{1ee7}","\u{75}\u{309}","\u{1ee7}","\u{75}\u{309}"],
["\u{1ee8}","\u{55}\u{31b}\u{301}","\u{1ee8}","\u{55}\u{31b}\u{301}"],
["\u{1ee9}","\u{75}\u{31b}\u{301}","\u{1ee9}","\u{75}\u{31b}\u{301}"],
["\u{1eea}","\u{55}\u{31b}\u{300}","\u{1eea}","\u{55}\u{31b}\u{300}"],
["\u{1eeb}","\u{75}\u{31b}\u{300}","\u{1eeb}","\u{75}\u{31b}\u{300}"],
["\u{1eec}","\u{55}\u{31b}\u{309}","\u{1eec}","\u{55}\u{31b}\u{309}"],
["\u{1eed}","\u{75}\u{31b}\u{309}","\u{1eed}","\u{75}\u{31b}\u{309}"],
["\u{1eee}","\u{55}\u{31b}\u{303}","\u{1eee}","\u{55}\u{31b}\u{303}"],
["\u{1eef}","\u{75}\u{31b}\u{303}","\u{1eef}","\u{75}\u{31b}\u{303}"],
["\u{1ef0}","\u{55}\u{31b}\u{323}","\u{1ef0}","\u{55}\u{31b}\u{323}"],
["\u{1ef1}","\u{75}\u{31b}\u{323}","\u{1ef1}","\u{75}\u{31b}\u{323}"],
["\u{1ef2}","\u{59}\u{300}","\u{1ef2}","\u{59}\u{300}"],
["\u{1ef3}","\u{79}\u{300}","\u{1ef3}","\u{79}\u{300}"],
["\u{1ef4}","\u{59}\u{323}","\u{1ef4}","\u{59}\u{323}"],
["\u{1ef5}","\u{79}\u{323}","\u{1ef5}","\u{79}\u{323}"],
["\u{1ef6}","\u{59}\u{309}","\u{1ef6}","\u{59}\u{309}"],
["\u{1ef7}","\u{79}\u{309}","\u{1ef7}","\u{79}\u{309}"],
["\u{1ef8}","\u{59}\u{303}","\u{1ef8}","\u{59}\u{303}"],
["\u{1ef9}","\u{79}\u{303}","\u{1ef9}","\u{79}\u{303}"],
["\u{1efa}","\u{1efa}","\u{1efa}","\u{1efa}"],
["\u{1efb}","\u{1efb}","\u{1efb}","\u{1efb}"],
["\u{1efc}","\u{1efc}","\u{1efc}","\u{1efc}"],
["\u{1efd}","\u{1efd}","\u{1efd}","\u{1efd}"],
["\u{1efe}","\u{1efe}","\u{1efe}","\u{1efe}"],
["\u{1eff}","\u{1eff}","\u{1eff}","\u{1eff}"],
    ]),
    (0x2100, 0x214f, &[
["\u{2100}","\u{2100}","\u{61}\u{2f}\u{63}","\u{61}\u{2f}\u{63}"],
["\u{2101}","\u{2101}","\u{61}\u{2f}\u{73}","\u{61}\u{2f}\u{73}"],
["\u{2102}","\u{2102}","\u{43}","\u{43}"],
["\u{2103}","\u{2103}","\u{b0}\u{43}","\u{b0}\u{43}"],
["\u{2104}","\u{2104}","\u{2104}","\u{2104}"],
["\u{2105}","\u{2105}","\u{63}\u{2f}\u{6f}","\u{63}\u{2f}\u{6f}"],
["\u{2106}","\u{2106}","\u{63}\u{2f}\u{75}","\u{63}\u{2f}\u{75}"],
["\u{2107}","\u{2107}","\u{190}","\u{190}"],
["\u{2108}","\u{2108}","\u{2108}","\u{2108}"],
["\u{2109}","\u{2109}","\u{b0}\u{46}","\u{b0}\u{46}"],
["\u{210a}","\u{210a}","\u{67}","\u{67}"],
["\u{210b}","\u{210b}","\u{48}","\u{48}"],
["\u{210c}","\u{210c}","\u{48}","\u{48}"],
["\u{210d}","\u{210d}","\u{48}","\u{48}"],
["\u{210e}","\u{210e}","\u{68}","\u{68}"],
["\u{210f}","\u{210f}","\u{127}","\u{127}"],
["\u{2110}","\u{2110}","\u{49}","\u{49}"],
["\u{2111}","\u{2111}","\u{49}","\u{49}"],
["\u{2112}","\u{2112}","\u{4c}","\u{4c}"],
["\u{2113}","\u{2113}","\u{6c}","\u{6c}"],
["\u{2114}","\u{2114}","\u{2114}","\u{2114}"],
["\u{2115}","\u{2115}","\u{4e}","\u{4e}"],
["\u{2116}","\u{2116}","\u{4e}\u{6f}","\u{4e}\u{6f}"],
["\u{2117}","\u{2117}","\u{2117}","\u{2117}"],
["\u{2118}","\u{2118}","\u{2118}","\u{2118}"],
["\u{2119}","\u{2119}","\u{50}","\u{50}"],
["\u{211a}","\u{211a}","\u{51}","\u{51}"],
["\u{211b}","\u{211b}","\u{52}","\u{52}"],
["\u{211c}","\u{211c}","\u{52}","\u{52}"],
["\u{211d}","\u{211d}","\u{52}","\u{52}"],
["\u{211e}","\u{211e}","\u{211e}","\u{211e}"],
["\u{211f}","\u{211f}","\u{211f}","\u{211f}"],
["\u{2120}","\u{2120}","\u{53}\u{4d}","\u{53}\u{4d}"],
["\u{2121}","\u{2121}","\u{54}\u{45}\u{4c}","\u{54}\u{45}\u{4c}"],
["\u{2122}","\u{2122}","\u{54}\u{4d}","\u{54}\u{4d}"],
["\u{2123}","\u{2123}","\u{2123}","\u{2123}"],
["\u{2124}","\u{2124}","\u{5a}","\u{5a}"],
["\u{2125}","\u{2125}","\u{2125}","\u{2125}"],
["\u{3a9}","\u{3a9}","\u{3a9}","\u{3a9}"],
["\u{2127}","\u{2127}","\u{2127}","\u{2127}"],
["\u{2128}","\u{2128}","\u{5a}","\u{5a}"],
["\u{2129}","\u{2129}","\u{2129}","\u{2129}"],
["\u{4b}","\u{4b}","\u{4b}","\u{4b}"],
["\u{c5}","\u{41}\u{30a}","\u{c5}","\u{41}\u{30a}"],
["\u{212c}","\u{212c}","\u{42}","\u{42}"],
["\u{212d}","\u{212d}","\u{43}","\u{43}"],
["\u{212e}","\u{212e}","\u{212e}","\u{212e}"],
["\u{212f}","\u{212f}","\u{65}","\u{65}"],
["\u{2130}","\u{2130}","\u{45}","\u{45}"],
["\u{2131}","\u{2131}","\u{46}","\u{46}"],
["\u{2132}","\u{2132}","\u{2132}","\u{2132}"],
["\u{2133}","\u{2133}","\u{4d}","\u{4d}"],
["\u{2134}","\u{2134}","\u{6f}","\u{6f}"],
["\u{2135}","\u{2135}","\u{5d0}","\u{5d0}"],
["\u{2136}","\u{2136}","\u{5d1}","\u{5d1}"],
["\u{2137}","\u{2137}","\u{5d2}","\u{5d2}"],
["\u{2138}","\u{2138}","\u{5d3}","\u{5d3}"],
["\u{2139}","\u{2139}","\u{69}","\u{69}"],
["\u{213a}","\u{213a}","\u{213a}","\u{213a}"],
["\u{213b}","\u{213b}","\u{46}\u{41}\u{58}","\u{46}\u{41}\u{58}"],
["\u{213c}","\u{213c}","\u{3c0}","\u{3c0}"],
["\u{213d}","\u{213d}","\u{3b3}","\u{3b3}"],
["\u{213e}","\u{213e}","\u{393}","\u{393}"],
["\u{213f}","\u{213f}","\u{3a0}","\u{3a0}"],
["\u{2140}","\u{2140}","\u{2211}","\u{2211}"],
["\u{2141}","\u{2141}","\u{2141}","\u{2141}"],
["\u{2142}","\u{2142}","\u{2142}","\u{2142}"],
["\u{2143}","\u{2143}","\u{2143}","\u{2143}"],
["\u{2144}","\u{2144}","\u{2144}","\u{2144}"],
["\u{2145}","\u{2145}","\u{44}","\u{44}"],
["\u{2146}","\u{2146}","\u{64}","\u{64}"],
["\u{2147}","\u{2147}","\u{65}","\u{65}"],
["\u{2148}","\u{2148}","\u{69}","\u{69}"],
["\u{2149}","\u{2149}","\u{6a}","\u{6a}"],
["\u{214a}","\u{214a}","\u{214a}","\u{214a}"],
["\u{214b}","\u{214b}","\u{214b}","\u{214b}"],
["\u{214c}","\u{214c}","\u{214c}","\u{214c}"],
["\u{214d}","\u{214d}","\u{214d}","\u{214d}"],
["\u{214e}","\u{214e}","\u{214e}","\u{214e}"],
["\u{214f}","\u{214f}","\u{214f}","\u{214f}"],
    ]),
    (0xfb00, 0xfb4f, &[
["\u{fb00}","\u{fb00}","\u{66}\u{66}","\u{66}\u{66}"],
["\u{fb01}","\u{fb01}","\u{66}\u{69}","\u{66}\u{69}"],
["\u{fb02}","\u{fb02}","\u{66}\u{6c}","\u{66}\u{6c}"],
["\u{fb03}","\u{fb03}","\u{66}\u{66}\u{69}","\u{66}\u{66}\u{69}"],
["\u{fb04}","\u{fb04}","\u{66}\u{66}\u{6c}","\u{66}\u{66}\u{6c}"],
["\u{fb05}","\u{fb05}","\u{73}\u{74}","\u{73}\u{74}"],
["\u{fb06}","\u{fb06}","\u{73}\u{74}","\u{73}\u{74}"],
["","","",""],
["","","",""],
["","","",""],
["","","",""],
["","","",""],
["","","",""],
["","","",""],
["","","",""],
["","","",""],
["","","",""],
["","","",""],
["","","",""],
["\u{fb13}","\u{fb13}","\u{574}\u{576}","\u{574}\u{576}"],
["\u{fb14}","\u{fb14}","\u{574}\u{565}","\u{574}\u{565}"],
["\u{fb15}","\u{fb15}","\u{574}\u{56b}","\u{574}\u{56b}"],
["\u{fb16}","\u{fb16}","\u{57e}\u{576}","\u{57e}\u{576}"],
["\u{fb17}","\u{fb17}","\u{574}\u{56d}","\u{574}\u{56d}"],
["","","",""],
["","","",""],
["","","",""],
["","","",""],
["","","",""],
["\u{5d9}\u{5b4}","\u{5d9}\u{5b4}","\u{5d9}\u{5b4}","\u{5d9}\u{5b4}"],
["\u{fb1e}","\u{fb1e}","\u{fb1e}","\u{fb1e}"],
["\u{5f2}\u{5b7}","\u{5f2}\u{5b7}","\u{5f2}\u{5b7}","\u{5f2}\u{5b7}"],
["\u{fb20}","\u{fb20}","\u{5e2}","\u{5e2}"],
["\u{fb21}","\u{fb21}","\u{5d0}","\u{5d0}"],
["\u{fb22}","\u{fb22}","\u{5d3}","\u{5d3}"],
["\u{fb23}","\u{fb23}","\u{5d4}","\u{5d4}"],
["\u{fb24}","\u{fb24}","\u{5db}","\u{5db}"],
["\u{fb25}","\u{fb25}","\u{5dc}","\u{5dc}"],
["\u{fb26}","\u{fb26}","\u{5dd}","\u{5dd}"],
["\u{fb27}","\u{fb27}","\u{5e8}","\u{5e8}"],
["\u{fb28}","\u{fb28}","\u{5ea}","\u{5ea}"],
["\u{fb29}","\u{fb29}","\u{2b}","\u{2b}"],
["\u{5e9}\u{5c1}","\u{5e9}\u{5c1}","\u{5e9}\u{5c1}","\u{5e9}\u{5c1}"],
["\u{5e9}\u{5c2}","\u{5e9}\u{5c2}","\u{5e9}\u{5c2}","\u{5e9}\u{5c2}"],
["\u{5e9}\u{5bc}\u{5c1}","\u{5e9}\u{5bc}\u{5c1}","\u{5e9}\u{5bc}\u{5c1}","\u{5e9}\u{5bc}\u{5c1}"],
["\u{5e9}\u{5bc}\u{5c2}","\u{5e9}\u{5bc}\u{5c2}","\u{5e9}\u{5bc}\u{5c2}","\u{5e9}\u{5bc}\u{5c2}"],
["\u{5d0}\u{5b7}","\u{5d0}\u{5b7}","\u{5d0}\u{5b7}","\u{5d0}\u{5b7}"],
["\u{5d0}\u{5b8}","\u{5d0}\u{5b8}","\u{5d0}\u{5b8}","\u{5d0}\u{5b8}"],
["\u{5d0}\u{5bc}","\u{5d0}\u{5bc}","\u{5d0}\u{5bc}","\u{5d0}\u{5bc}"],
["\u{5d1}\u{5bc}","\u{5d1}\u{5bc}","\u{5d1}\u{5bc}","\u{5d1}\u{5bc}"],
["\u{5d2}\u{5bc}","\u{5d2}\u{5bc}","\u{5d2}\u{5bc}","\u{5d2}\u{5bc}"],
["\u{5d3}\u{5bc}","\u{5d3}\u{5bc}","\u{5d3}\u{5bc}","\u{5d3}\u{5bc}"],
["\u{5d4}\u{5bc}","\u{5d4}\u{5bc}","\u{5d4}\u{5bc}","\u{5d4}\u{5bc}"],
["\u{5d5}\u{5bc}","\u{5d5}\u{5bc}","\u{5d5}\u{5bc}","\u{5d5}\u{5bc}"],
["\u{5d6}\u{5bc}","\u{5d6}\u{5bc}","\u{5d6}\u{5bc}","\u{5d6}\u{5bc}"],
["","","",""],
["\u{5d8}\u{5bc}","\u{5d8}\u{5bc}","\u{5d8}\u{5bc}","\u{5d8}\u{5bc}"],
["\u{5d9}\u{5bc}","\u{5d9}\u{5bc}","\u{5d9}\u{5bc}","\u{5d9}\u{5bc}"],
["\u{5da}\u{5bc}","\u{5da}\u{5bc}","\u{5da}\u{5bc}","\u{5da}\u{5bc}"],
["\u{5db}\u{5bc}","\u{5db}\u{5bc}","\u{5db}\u{5bc}","\u{5db}\u{5bc}"],
["\u{5dc}\u{5bc}","\u{5dc}\u{5bc}","\u{5dc}\u{5bc}","\u{5dc}\u{5bc}"],
["","","",""],
["\u{5de}\u{5bc}","\u{5de}\u{5bc}","\u{5de}\u{5bc}","\u{5de}\u{5bc}"],
["","","",""],
["\u{5e0}\u{5bc}","\u{5e0}\u{5bc}","\u{5e0}\u{5bc}","\u{5e0}\u{5bc}"],
["\u{5e1}\u{5bc}","\u{5e1}\u{5bc}","\u{5e1}\u{5bc}","\u{5e1}\u{5bc}"],
["","","",""],
["\u{5e3}\u{5bc}","\u{5e3}\u{5bc}","\u{5e3}\u{5bc}","\u{5e3}\u{5bc}"],
["\u{5e4}\u{5bc}","\u{5e4}\u{5bc}","\u{5e4}\u{5bc}","\u{5e4}\u{5bc}"],
["","","",""],
["\u{5e6}\u{5bc}","\u{5e6}\u{5bc}","\u{5e6}\u{5bc}","\u{5e6}\u{5bc}"],
["\u{5e7}\u{5bc}","\u{5e7}\u{5bc}","\u{5e7}\u{5bc}","\u{5e7}\u{5bc}"],
["\u{5e8}\u{5bc}","\u{5e8}\u{5bc}","\u{5e8}\u{5bc}","\u{5e8}\u{5bc}"],
["\u{5e9}\u{5bc}","\u{5e9}\u{5bc}","\u{5e9}\u{5bc}","\u{5e9}\u{5bc}"],
["\u{5ea}\u{5bc}","\u{5ea}\u{5bc}","\u{5ea}\u{5bc}","\u{5ea}\u{5bc}"],
["\u{5d5}\u{5b9}","\u{5d5}\u{5b9}","\u{5d5}\u{5b9}","\u{5d5}\u{5b9}"],
["\u{5d1}\u{5bf}","\u{5d1}\u{5bf}","\u{5d1}\u{5bf}","\u{5d1}\u{5bf}"],
["\u{5db}\u{5bf}","\u{5db}\u{5bf}","\u{5db}\u{5bf}","\u{5db}\u{5bf}"],
["\u{5e4}\u{5bf}","\u{5e4}\u{5bf}","\u{5e4}\u{5bf}","\u{5e4}\u{5bf}"],
["\u{fb4f}","\u{fb4f}","\u{5d0}\u{5dc}","\u{5d0}\u{5dc}"],
    ]),
    (0x340, 0x345, &[
["\u{300}","\u{300}","\u{300}","\u{300}"],
["\u{301}","\u{301}","\u{301}","\u{301}"],
["\u{342}","\u{342}","\u{342}","\u{342}"],
["\u{313}","\u{313}","\u{313}","\u{313}"],
["\u{308}\u{301}","\u{308}\u{301}","\u{308}\u{301}","\u{308}\u{301}"],
["\u{345}","\u{345}","\u{345}","\u{345}"],
    ]),
    (0x37e, 0x3ce, &[
["\u{3b}","\u{3b}","\u{3b}","\u{3b}"],
["\u{37f}","\u{37f}","\u{37f}","\u{37f}"],
["","","",""],
["","","",""],
["","","",""],
["","","",""],
["\u{384}","\u{384}","\u{20}\u{301}","\u{20}\u{301}"],
["\u{385}","\u{a8}\u{301}","\u{20}\u{308}\u{301}","\u{20}\u{308}\u{301}"],
["\u{386}","\u{391}\u{301}","\u{386}","\u{391}\u{301}"],
["\u{b7}","\u{b7}","\u{b7}","\u{b7}"],
["\u{388}","\u{395}\u{301}","\u{388}","\u{395}\u{301}"],
["\u{389}","\u{397}\u{301}","\u{389}","\u{397}\u{301}"],
["\u{38a}","\u{399}\u{301}","\u{38a}","\u{399}\u{301}"],
["","","",""],
["\u{38c}","\u{39f}\u{301}","\u{38c}","\u{39f}\u{301}"],
["","","",""],
["\u{38e}","\u{3a5}\u{301}","\u{38e}","\u{3a5}\u{301}"],
["\u{38f}","\u{3a9}\u{301}","\u{38f}","\u{3a9}\u{301}"],
["\u{390}","\u{3b9}\u{308}\u{301}","\u{390}","\u{3b9}\u{308}\u{301}"],
["\u{391}","\u{391}","\u{391}","\u{391}"],
["\u{392}","\u{392}","\u{392}","\u{392}"],
["\u{393}","\u{393}","\u{393}","\u{393}"],
["\u{394}","\u{394}","\u{394}","\u{394}"],
["\u{395}","\u{395}","\u{395}","\u{395}"],
["\u{396}","\u{396}","\u{396}","\u{396}"],
["\u{397}","\u{397}","\u{397}","\u{397}"],
["\u{398}","\u{398}","\u{398}","\u{398}"],
["\u{399}","\u{399}","\u{399}","\u{399}"],
["\u{39a}","\u{39a}","\u{39a}","\u{39a}"],
["\u{39b}","\u{39b}","\u{39b}","\u{39b}"],
["\u{39c}","\u{39c}","\u{39c}","\u{39c}"],
["\u{39d}","\u{39d}","\u{39d}","\u{39d}"],
["\u{39e}","\u{39e}","\u{39e}","\u{39e}"],
["\u{39f}","\u{39f}","\u{39f}","\u{39f}"],
["\u{3a0}","\u{3a0}","\u{3a0}","\u{3a0}"],
["\u{3a1}","\u{3a1}","\u{3a1}","\u{3a1}"],
["","","",""],
["\u{3a3}","\u{3a3}","\u{3a3}","\u{3a3}"],
["\u{3a4}","\u{3a4}","\u{3a4}","\u{3a4}"],
["\u{3a5}","\u{3a5}","\u{3a5}","\u{3a5}"],
["\u{3a6}","\u{3a6}","\u{3a6}","\u{3a6}"],
["\u{3a7}","\u{3a7}","\u{3a7}","\u{3a7}"],
["\u{3a8}","\u{3a8}","\u{3a8}","\u{3a8}"],
["\u{3a9}","\u{3a9}","\u{3a9}","\u{3a9}"],
["\u{3aa}","\u{399}\u{308}","\u{3aa}","\u{399}\u{308}"],
["\u{3ab}","\u{3a5}\u{308}","\u{3ab}","\u{3a5}\u{308}"],
["\u{3ac}","\u{3b1}\u{301}","\u{3ac}","\u{3b1}\u{301}"],
["\u{3ad}","\u{3b5}\u{301}","\u{3ad}","\u{3b5}\u{301}"],
["\u{3ae}","\u{3b7}\u{301}","\u{3ae}","\u{3b7}\u{301}"],
["\u{3af}","\u{3b9}\u{301}","\u{3af}","\u{3b9}\u{301}"],
["\u{3b0}","\u{3c5}\u{308}\u{301}","\u{3b0}","\u{3c5}\u{308}\u{301}"],
["\u{3b1}","\u{3b1}","\u{3b1}","\u{3b1}"],
["\u{3b2}","\u{3b2}","\u{3b2}","\u{3b2}"],
["\u{3b3}","\u{3b3}","\u{3b3}","\u{3b3}"],
["\u{3b4}","\u{3b4}","\u{3b4}","\u{3b4}"],
["\u{3b5}","\u{3b5}","\u{3b5}","\u{3b5}"],
["\u{3b6}","\u{3b6}","\u{3b6}","\u{3b6}"],
["\u{3b7}","\u{3b7}","\u{3b7}","\u{3b7}"],
["\u{3b8}","\u{3b8}","\u{3b8}","\u{3b8}"],
["\u{3b9}","\u{3b9}","\u{3b9}","\u{3b9}"],
["\u{3ba}","\u{3ba}","\u{3ba}","\u{3ba}"],
["\u{3bb}","\u{3bb}","\u{3bb}","\u{3bb}"],
["\u{3bc}","\u{3bc}","\u{3bc}","\u{3bc}"],
["\u{3bd}","\u{3bd}","\u{3bd}","\u{3bd}"],
["\u{3be}","\u{3be}","\u{3be}","\u{3be}"],
["\u{3bf}","\u{3bf}","\u{3bf}","\u{3bf}"],
["\u{3c0}","\u{3c0}","\u{3c0}","\u{3c0}"],
["\u{3c1}","\u{3c1}","\u{3c1}","\u{3c1}"],
["\u{3c2}","\u{3c2}","\u{3c2}","\u{3c2}"],
["\u{3c3}","\u{3c3}","\u{3c3}","\u{3c3}"],
["\u{3c4}","\u{3c4}","\u{3c4}","\u{3c4}"],
["\u{3c5}","\u{3c5}","\u{3c5}","\u{3c5}"],
["\u{3c6}","\u{3c6}","\u{3c6}","\u{3c6}"],
["\u{3c7}","\u{3c7}","\u{3c7}","\u{3c7}"],
["\u{3c8}","\u{3c8}","\u{3c8}","\u{3c8}"],
["\u{3c9}","\u{3c9}","\u{3c9}","\u{3c9}"],
["\u{3ca}","\u{3b9}\u{308}","\u{3ca}","\u{3b9}\u{308}"],
["\u{3cb}","\u{3c5}\u{308}","\u{3cb}","\u{3c5}\u{308}"],
["\u{3cc}","\u{3bf}\u{301}","\u{3cc}","\u{3bf}\u{301}"],
["\u{3cd}","\u{3c5}\u{301}","\u{3cd}","\u{3c5}\u{301}"],
["\u{3ce}","\u{3c9}\u{301}","\u{3ce}","\u{3c9}\u{301}"],
    ]),
    (0x3040, 0x30ff, &[
["","","",""],
["\u{3041}","\u{3041}","\u{3041}","\u{3041}"],
["\u{3042}","\u{3042}","\u{3042}","\u{3042}"],
["\u{3043}","\u{3043}","\u{3043}","\u{3043}"],
["\u{3044}","\u{3044}","\u{3044}","\u{3044}"],
["\u{3045}","\u{3045}","\u{3045}","\u{3045}"],
["\u{3046}","\u{3046}","\u{3046}","\u{3046}"],
["\u{3047}","\u{3047}","\u{3047}","\u{3047}"],
["\u{3048}","\u{3048}","\u{3048}","\u{3048}"],
["\u{3049}","\u{3049}","\u{3049}","\u{3049}"],
["\u{304a}","\u{304a}","\u{304a}","\u{304a}"],
["\u{304b}","\u{304b}","\u{304b}","\u{304b}"],
["\u{304c}","\u{304b}\u{3099}","\u{304c}","\u{304b}\u{3099}"],
["\u{304d}","\u{304d}","\u{304d}","\u{304d}"],
["\u{304e}","\u{304d}\u{3099}","\u{304e}","\u{304d}\u{3099}"],
["\u{304f}","\u{304f}","\u{304f}","\u{304f}"],
["\u{3050}","\u{304f}\u{3099}","\u{3050}","\u{304f}\u{3099}"],
["\u{3051}","\u{3051}","\u{3051}","\u{3051}"],
["\u{3052}","\u{3051}\u{3099}","\u{3052}","\u{3051}\u{3099}"],
["\u{3053}","\u{3053}","\u{3053}","\u{3053}"],
["\u{3054}","\u{3053}\u{3099}","\u{3054}","\u{3053}\u{3099}"],
["\u{3055}","\u{3055}","\u{3055}","\u{3055}"],
["\u{3056}","\u{3055}\u{3099}","\u{3056}","\u{3055}\u{3099}"],
["\u{3057}","\u{3057}","\u{3057}","\u{3057}"],
["\u{3058}","\u{3057}\u{3099}","\u{3058}","\u{3057}\u{3099}"],
["\u{3059}","\u{3059}","\u{3059}","\u{3059}"],
["\u{305a}","\u{3059}\u{3099}","\u{305a}","\u{3059}\u{3099}"],
["\u{305b}","\u{305b}","\u{305b}","\u{305b}"],
["\u{305c}","\u{305b}\u{3099}","\u{305c}","\u{305b}\u{3099}"],
["\u{305d}","\u{305d}","\u{305d}","\u{305d}"],
["\u{305e}","\u{305d}\u{3099}","\u{305e}","\u{305d}\u{3099}"],
["\u{305f}","\u{305f}","\u{305f}","\u{305f}"],
["\u{3060}","\u{305f}\u{3099}","\u{3060}","\u{305f}\u{3099}"],
["\u{3061}","\u{3061}","\u{3061}","\u{3061}"],
["\u{3062}","\u{3061}\u{3099}","\u{3062}","\u{3061}\u{3099}"],
["\u{3063}","\u{3063}","\u{3063}","\u{3063}"],
["\u{3064}","\u{3064}","\u{3064}","\u{3064}"],
["\u{3065}","\u{3064}\u{3099}","\u{3065}","\u{3064}\u{3099}"],
["\u{3066}","\u{3066}","\u{3066}","\u{3066}"],
["\u{3067}","\u{3066}\u{3099}","\u{3067}","\u{3066}\u{3099}"],
["\u{3068}","\u{3068}","\u{3068}","\u{3068}"],
["\u{3069}","\u{3068}\u{3099}","\u{3069}","\u{3068}\u{3099}"],
["\u{306a}","\u{306a}","\u{306a}","\u{306a}"],
["\u{306b}","\u{306b}","\u{306b}","\u{306b}"],
["\u{306c}","\u{306c}","\u{306c}","\u{306c}"],
["\u{306d}","\u{306d}","\u{306d}","\u{306d}"],
["\u{306e}","\u{306e}","\u{306e}","\u{306e}"],
["\u{306f}","\u{306f}","\u{306f}","\u{306f}"],
["\u{3070}","\u{306f}\u{3099}","\u{3070}","\u{306f}\u{3099}"],
["\u{3071}","\u{306f}\u{309a}","\u{3071}","\u{306f}\u{309a}"],
["\u{3072}","\u{3072}","\u{3072}","\u{3072}"],
["\u{3073}","\u{3072}\u{3099}","\u{3073}","\u{3072}\u{3099}"],
["\u{3074}","\u{3072}\u{309a}","\u{3074}","\u{3072}\u{309a}"],
["\u{3075}","\u{3075}","\u{3075}","\u{3075}"],
["\u{3076}","\u{3075}\u{3099}","\u{3076}","\u{3075}\u{3099}"],
["\u{3077}","\u{3075}\u{309a}","\u{3077}","\u{3075}\u{309a}"],
["\u{3078}","\u{3078}","\u{3078}","\u{3078}"],
["\u{3079}","\u{3078}\u{3099}","\u{3079}","\u{3078}\u{3099}"],
["\u{307a}","\u{3078}\u{309a}","\u{307a}","\u{3078}\u{309a}"],
["\u{307b}","\u{307b}","\u{307b}","\u{307b}"],
["\u{307c}","\u{307b}\u{3099}","\u{307c}","\u{307b}\u{3099}"],
["\u{307d}","\u{307b}\u{309a}","\u{307d}","\u{307b}\u{309a}"],
["\u{307e}","\u{307e}","\u{307e}","\u{307e}"],
["\u{307f}","\u{307f}","\u{307f}","\u{307f}"],
["\u{3080}","\u{3080}","\u{3080}","\u{3080}"],
["\u{3081}","\u{3081}","\u{3081}","\u{3081}"],
["\u{3082}","\u{3082}","\u{3082}","\u{3082}"],
["\u{3083}","\u{3083}","\u{3083}","\u{3083}"],
["\u{3084}","\u{3084}","\u{3084}","\u{3084}"],
["\u{3085}","\u{3085}","\u{3085}","\u{3085}"],
["\u{3086}","\u{3086}","\u{3086}","\u{3086}"],
["\u{3087}","\u{3087}","\u{3087}","\u{3087}"],
["\u{3088}","\u{3088}","\u{3088}","\u{3088}"],
["\u{3089}","\u{3089}","\u{3089}","\u{3089}"],
["\u{308a}","\u{308a}","\u{308a}","\u{308a}"],
["\u{308b}","\u{308b}","\u{308b}","\u{308b}"],
["\u{308c}","\u{308c}","\u{308c}","\u{308c}"],
["\u{308d}","\u{308d}","\u{308d}","\u{308d}"],
["\u{308e}","\u{308e}","\u{308e}","\u{308e}"],
["\u{308f}","\u{308f}","\u{308f}","\u{308f}"],
["\u{3090}","\u{3090}","\u{3090}","\u{3090}"],
["\u{3091}","\u{3091}","\u{3091}","\u{3091}"],
["\u{3092}","\u{3092}","\u{3092}","\u{3092}"],
["\u{3093}","\u{3093}","\u{3093}","\u{3093}"],
["\u{3094}","\u{3046}\u{3099}","\u{3094}","\u{3046}\u{3099}"],
["\u{3095}","\u{3095}","\u{3095}","\u{3095}"],
["\u{3096}","\u{3096}","\u{3096}","\u{3096}"],
["","","",""],
["","","",""],
["\u{3099}","\u{3099}","\u{3099}","\u{3099}"],
["\u{309a}","\u{309a}","\u{309a}","\u{309a}"],
["\u{309b}","\u{309b}","\u{20}\u{3099}","\u{20}\u{3099}"],
["\u{309c}","\u{309c}","\u{20}\u{309a}","\u{20}\u{309a}"],
["\u{309d}","\u{309d}","\u{309d}","\u{309d}"],
["\u{309e}","\u{309d}\u{3099}","\u{309e}","\u{309d}\u{3099}"],
["\u{309f}","\u{309f}","\u{3088}\u{308a}","\u{3088}\u{308a}"],
["\u{30a0}","\u{30a0}","\u{30a0}","\u{30a0}"],
["\u{30a1}","\u{30a1}","\u{30a1}","\u{30a1}"],
["\u{30a2}","\u{30a2}","\u{30a2}","\u{30a2}"],
["\u{30a3}","\u{30a3}","\u{30a3}","\u{30a3}"],
["\u{30a4}","\u{30a4}","\u{30a4}","\u{30a4}"],
["\u{30a5}","\u{30a5}","\u{30a5}","\u{30a5}"],
["\u{30a6}","\u{30a6}","\u{30a6}","\u{30a6}"],
["\u{30a7}","\u{30a7}","\u{30a7}","\u{30a7}"],
["\u{30a8}","\u{30a8}","\u{30a8}","\u{30a8}"],
["\u{30a9}","\u{30a9}","\u{30a9}","\u{30a9}"],
["\u{30aa}","\u{30aa}","\u{30aa}","\u{30aa}"],
["\u{30ab}","\u{30ab}","\u{30ab}","\u{30ab}"],
["\u{30ac}","\u{30ab}\u{3099}","\u{30ac}","\u{30ab}\u{3099}"],
["\u{30ad}","\u{30ad}","\u{30ad}","\u{30ad}"],
["\u{30ae}","\u{30ad}\u{3099}","\u{30ae}","\u{30ad}\u{3099}"],
["\u{30af}","\u{30af}","\u{30af}","\u{30af}"],
["\u{30b0}","\u{30af}\u{3099}","\u{30b0}","\u{30af}\u{3099}"],
["\u{30b1}","\u{30b1}","\u{30b1}","\u{30b1}"],
["\u{30b2}","\u{30b1}\u{3099}","\u{30b2}","\u{30b1}\u{3099}"],
["\u{30b3}","\u{30b3}","\u{30b3}","\u{30b3}"],
["\u{30b4}","\u{30b3}\u{3099}","\u{30b4}","\u{30b3}\u{3099}"],
["\u{30b5}","\u{30b5}","\u{30b5}","\u{30b5}"],
["\u{30b6}","\u{30b5}\u{3099}","\u{30b6}","\u{30b5}\u{3099}"],
["\u{30b7}","\u{30b7}","\u{30b7}","\u{30b7}"],
["\u{30b8}","\u{30b7}\u{3099}","\u{30b8}","\u{30b7}\u{3099}"],
["\u{30b9}","\u{30b9}","\u{30b9}","\u{30b9}"],
["\u{30ba}","\u{30b9}\u{3099}","\u{30ba}","\u{30b9}\u{3099}"],
["\u{30bb}","\u{30bb}","\u{30bb}","\u{30bb}"],
["\u{30bc}","\u{30bb}\u{3099}","\u{30bc}","\u{30bb}\u{3099}"],
["\u{30bd}","\u{30bd}","\u{30bd}","\u{30bd}"],
["\u{30be}","\u{30bd}\u{3099}","\u{30be}","\u{30bd}\u{3099}"],
["\u{30bf}","\u{30bf}","\u{30bf}","\u{30bf}"],
["\u{30c0}","\u{30bf}\u{3099}","\u{30c0}","\u{30bf}\u{3099}"],
["\u{30c1}","\u{30c1}","\u{30c1}","\u{30c1}"],
["\u{30c2}","\u{30c1}\u{3099}","\u{30c2}","\u{30c1}\u{3099}"],
["\u{30c3}","\u{30c3}","\u{30c3}","\u{30c3}"],
["\u{30c4}","\u{30c4}","\u{30c4}","\u{30c4}"],
["\u{30c5}","\u{30c4}\u{3099}","\u{30c5}","\u{30c4}\u{3099}"],
["\u{30c6}","\u{30c6}","\u{30c6}","\u{30c6}"],
["\u{30c7}","\u{30c6}\u{3099}","\u{30c7}","\u{30c6}\u{3099}"],
["\u{30c8}","\u{30c8}","\u{30c8}","\u{30c8}"],
["\u{30c9}","\u{30c8}\u{3099}","\u{30c9}","\u{30c8}\u{3099}"],
["\u{30ca}","\u{30ca}","\u{30ca}","\u{30ca}"],
["\u{30cb}","\u{30cb}","\u{30cb}","\u{30cb}"],
["\u{30cc}","\u{30cc}","\u{30cc}","\u{30cc}"],
["\u{30cd}","\u{30cd}","\u{30cd}","\u{30cd}"],
["\u{30ce}","\u{30ce}","\u{30ce}","\u{30ce}"],
["\u{30cf}","\u{30cf}","\u{30cf}","\u{30cf}"],
["\u{30d0}","\u{30cf}\u{3099}","\u{30d0}","\u{30cf}\u{3099}"],
["\u{30d1}","\u{30cf}\u{309a}","\u{30d1}","\u{30cf}\u{309a}"],
["\u{30d2}","\u{30d2}","\u{30d2}","\u{30d2}"],
["\u{30d3}","\u{30d2}\u{3099}","\u{30d3}","\u{30d2}\u{3099}"],
["\u{30d4}","\u{30d2}\u{309a}","\u{30d4}","\u{30d2}\u{309a}"],
["\u{30d5}","\u{30d5}","\u{30d5}","\u{30d5}"],
["\u{30d6}","\u{30d5}\u{3099}","\u{30d6}","\u{30d5}\u{3099}"],
["\u{30d7}","\u{30d5}\u{309a}","\u{30d7}","\u{30d5}\u{309a}"],
["\u{30d8}","\u{30d8}","\u{30d8}","\u{30d8}"],
["\u{30d9}","\u{30d8}\u{3099}","\u{30d9}","\u{30d8}\u{3099}"],
["\u{30da}","\u{30d8}\u{309a}","\u{30da}","\u{30d8}\u{309a}"],
["\u{30db}","\u{30db}","\u{30db}","\u{30db}"],
["\u{30dc}","\u{30db}\u{3099}","\u{30dc}","\u{30db}\u{3099}"],
["\u{30dd}","\u{30db}\u{309a}","\u{30dd}","\u{30db}\u{309a}"],
["\u{30de}","\u{30de}","\u{30de}","\u{30de}"],
["\u{30df}","\u{30df}","\u{30df}","\u{30df}"],
["\u{30e0}","\u{30e0}","\u{30e0}","\u{30e0}"],
["\u{30e1}","\u{30e1}","\u{30e1}","\u{30e1}"],
["\u{30e2}","\u{30e2}","\u{30e2}","\u{30e2}"],
["\u{30e3}","\u{30e3}","\u{30e3}","\u{30e3}"],
["\u{30e4}","\u{30e4}","\u{30e4}","\u{30e4}"],
["\u{30e5}","\u{30e5}","\u{30e5}","\u{30e5}"],
["\u{30e6}","\u{30e6}","\u{30e6}","\u{30e6}"],
["\u{30e7}","\u{30e7}","\u{30e7}","\u{30e7}"],
["\u{30e8}","\u{30e8}","\u{30e8}","\u{30e8}"],
["\u{30e9}","\u{30e9}","\u{30e9}","\u{30e9}"],
["\u{30ea}","\u{30ea}","\u{30ea}","\u{30ea}"],
["\u{30eb}","\u{30eb}","\u{30eb}","\u{30eb}"],
["\u{30ec}","\u{30ec}","\u{30ec}","\u{30ec}"],
["\u{30ed}","\u{30ed}","\u{30ed}","\u{30ed}"],
["\u{30ee}","\u{30ee}","\u{30ee}","\u{30ee}"],
["\u{30ef}","\u{30ef}","\u{30ef}","\u{30ef}"],
["\u{30f0}","\u{30f0}","\u{30f0}","\u{30f0}"],
["\u{30f1}","\u{30f1}","\u{30f1}","\u{30f1}"],
["\u{30f2}","\u{30f2}","\u{30f2}","\u{30f2}"],
["\u{30f3}","\u{30f3}","\u{30f3}","\u{30f3}"],
["\u{30f4}","\u{30a6}\u{3099}","\u{30f4}","\u{30a6}\u{3099}"],
["\u{30f5}","\u{30f5}","\u{30f5}","\u{30f5}"],
["\u{30f6}","\u{30f6}","\u{30f6}","\u{30f6}"],
["\u{30f7}","\u{30ef}\u{3099}","\u{30f7}","\u{30ef}\u{3099}"],
["\u{30f8}","\u{30f0}\u{3099}","\u{30f8}","\u{30f0}\u{3099}"],
["\u{30f9}","\u{30f1}\u{3099}","\u{30f9}","\u{30f1}\u{3099}"],
["\u{30fa}","\u{30f2}\u{3099}","\u{30fa}","\u{30f2}\u{3099}"],
["\u{30fb}","\u{30fb}","\u{30fb}","\u{30fb}"],
["\u{30fc}","\u{30fc}","\u{30fc}","\u{30fc}"],
["\u{30fd}","\u{30fd}","\u{30fd}","\u{30fd}"],
["\u{30fe}","\u{30fd}\u{3099}","\u{30fe}","\u{30fd}\u{3099}"],
["\u{30ff}","\u{30ff}","\u{30b3}\u{30c8}","\u{30b3}\u{30c8}"],
    ]),
    (0xff00, 0xffee, &[
["","","",""],
["\u{ff01}","\u{ff01}","\u{21}","\u{21}"],
["\u{ff02}","\u{ff02}","\u{22}","\u{22}"],
["\u{ff03}","\u{ff03}","\u{23}","\u{23}"],
["\u{ff04}","\u{ff04}","\u{24}","\u{24}"],
["\u{ff05}","\u{ff05}","\u{25}","\u{25}"],
["\u{ff06}","\u{ff06}","\u{26}","\u{26}"],
["\u{ff07}","\u{ff07}","\u{27}","\u{27}"],
["\u{ff08}","\u{ff08}","\u{28}","\u{28}"],
["\u{ff09}","\u{ff09}","\u{29}","\u{29}"],
["\u{ff0a}","\u{ff0a}","\u{2a}","\u{2a}"],
["\u{ff0b}","\u{ff0b}","\u{2b}","\u{2b}"],
["\u{ff0c}","\u{ff0c}","\u{2c}","\u{2c}"],
["\u{ff0d}","\u{ff0d}","\u{2d}","\u{2d}"],
["\u{ff0e}","\u{ff0e}","\u{2e}","\u{2e}"],
["\u{ff0f}","\u{ff0f}","\u{2f}","\u{2f}"],
["\u{ff10}","\u{ff10}","\u{30}","\u{30}"],
["\u{ff11}","\u{ff11}","\u{31}","\u{31}"],
["\u{ff12}","\u{ff12}","\u{32}","\u{32}"],
["\u{ff13}","\u{ff13}","\u{33}","\u{33}"],
["\u{ff14}","\u{ff14}","\u{34}","\u{34}"],
["\u{ff15}","\u{ff15}","\u{35}","\u{35}"],
["\u{ff16}","\u{ff16}","\u{36}","\u{36}"],
["\u{ff17}","\u{ff17}","\u{37}","\u{37}"],
["\u{ff18}","\u{ff18}","\u{38}","\u{38}"],
["\u{ff19}","\u{ff19}","\u{39}","\u{39}"],
["\u{ff1a}","\u{ff1a}","\u{3a}","\u{3a}"],
["\u{ff1b}","\u{ff1b}","\u{3b}","\u{3b}"],
["\u{ff1c}","\u{ff1c}","\u{3c}","\u{3c}"],
["\u{ff1d}","\u{ff1d}","\u{3d}","\u{3d}"],
["\u{ff1e}","\u{ff1e}","\u{3e}","\u{3e}"],
["\u{ff1f}","\u{ff1f}","\u{3f}","\u{3f}"],
["\u{ff20}","\u{ff20}","\u{40}","\u{40}"],
["\u{ff21}","\u{ff21}","\u{41}","\u{41}"],
["\u{ff22}","\u{ff22}","\u{42}","\u{42}"],
["\u{ff23}","\u{ff23}","\u{43}","\u{43}"],
["\u{ff24}","\u{ff24}","\u{44}","\u{44}"],
["\u{ff25}","\u{ff25}","\u{45}","\u{45}"],
["\u{ff26}","\u{ff26}","\u{46}","\u{46}"],
["\u{ff27}","\u{ff27}","\u{47}","\u{47}"],
["\u{ff28}","\u{ff28}","\u{48}","\u{48}"],
["\u{ff29}","\u{ff29}","\u{49}","\u{49}"],
["\u{ff2a}","\u{ff2a}","\u{4a}","\u{4a}"],
["\u{ff2b}","\u{ff2b}","\u{4b}","\u{4b}"],
["\u{ff2c}","\u{ff2c}","\u{4c}","\u{4c}"],
["\u{ff2d}","\u{ff2d}","\u{4d}","\u{4d}"],
["\u{ff2e}","\u{ff2e}","\u{4e}","\u{4e}"],
["\u{ff2f}","\u{ff2f}","\u{4f}","\u{4f}"],
["\u{ff30}","\u{ff30}","\u{50}","\u{50}"],
["\u{ff31}","\u{ff31}","\u{51}","\u{51}"],
["\u{ff32}","\u{ff32}","\u{52}","\u{52}"],
["\u{ff33}","\u{ff33}","\u{53}","\u{53}"],
["\u{ff34}","\u{ff34}","\u{54}","\u{54}"],
["\u{ff35}","\u{ff35}","\u{55}","\u{55}"],
["\u{ff36}","\u{ff36}","\u{56}","\u{56}"],
["\u{ff37}","\u{ff37}","\u{57}","\u{57}"],
["\u{ff38}","\u{ff38}","\u{58}","\u{58}"],
["\u{ff39}","\u{ff39}","\u{59}","\u{59}"],
["\u{ff3a}","\u{ff3a}","\u{5a}","\u{5a}"],
["\u{ff3b}","\u{ff3b}","\u{5b}","\u{5b}"],
["\u{ff3c}","\u{ff3c}","\u{5c}","\u{5c}"],
["\u{ff3d}","\u{ff3d}","\u{5d}","\u{5d}"],
["\u{ff3e}","\u{ff3e}","\u{5e}","\u{5e}"],
["\u{ff3f}","\u{ff3f}","\u{5f}","\u{5f}"],
["\u{ff40}","\u{ff40}","\u{60}","\u{60}"],
["\u{ff41}","\u{ff41}","\u{61}","\u{61}"],
["\u{ff42}","\u{ff42}","\u{62}","\u{62}"],
["\u{ff43}","\u{ff43}","\u{63}","\u{63}"],
["\u{ff44}","\u{ff44}","\u{64}","\u{64}"],
["\u{ff45}","\u{ff45}","\u{65}","\u{65}"],
["\u{ff46}","\u{ff46}","\u{66}","\u{66}"],
["\u{ff47}","\u{ff47}","\u{67}","\u{67}"],
["\u{ff48}","\u{ff48}","\u{68}","\u{68}"],
["\u{ff49}","\u{ff49}","\u{69}","\u{69}"],
["\u{ff4a}","\u{ff4a}","\u{6a}","\u{6a}"],
["\u{ff4b}","\u{ff4b}","\u{6b}","\u{6b}"],
["\u{ff4c}","\u{ff4c}","\u{6c}","\u{6c}"],
["\u{ff4d}","\u{ff4d}","\u{6d}","\u{6d}"],
["\u{ff4e}","\u{ff4e}","\u{6e}","\u{6e}"],
["\u{ff4f}","\u{ff4f}","\u{6f}","\u{6f}"],
["\u{ff50}","\u{ff50}","\u{70}","\u{70}"],
["\u{ff51}","\u{ff51}","\u{71}","\u{71}"],
["\u{ff52}","\u{ff52}","\u{72}","\u{72}"],
["\u{ff53}","\u{ff53}","\u{73}","\u{73}"],
["\u{ff54}","\u{ff54}","\u{74}","\u{74}"],
["\u{ff55}","\u{ff55}","\u{75}","\u{75}"],
["\u{ff56}","\u{ff56}","\u{76}","\u{76}"],
["\u{ff57}","\u{ff57}","\u{77}","\u{77}"],
["\u{ff58}","\u{ff58}","\u{78}","\u{78}"],
["\u{ff59}","\u{ff59}","\u{79}","\u{79}"],
["\u{ff5a}","\u{ff5a}","\u{7a}","\u{7a}"],
["\u{ff5b}","\u{ff5b}","\u{7b}","\u{7b}"],
["\u{ff5c}","\u{ff5c}","\u{7c}","\u{7c}"],
["\u{ff5d}","\u{ff5d}","\u{7d}","\u{7d}"],
["\u{ff5e}","\u{ff5e}","\u{7e}","\u{7e}"],
["\u{ff5f}","\u{ff5f}","\u{2985}","\u{2985}"],
["\u{ff60}","\u{ff60}","\u{2986}","\u{2986}"],
["\u{ff61}","\u{ff61}","\u{3002}","\u{3002}"],
["\u{ff62}","\u{ff62}","\u{300c}","\u{300c}"],
["\u{ff63}","\u{ff63}","\u{300d}","\u{300d}"],
["\u{ff64}","\u{ff64}","\u{3001}","\u{3001}"],
["\u{ff65}","\u{ff65}","\u{30fb}","\u{30fb}"],
["\u{ff66}","\u{ff66}","\u{30f2}","\u{30f2}"],
["\u{ff67}","\u{ff67}","\u{30a1}","\u{30a1}"],
["\u{ff68}","\u{ff68}","\u{30a3}","\u{30a3}"],
["\u{ff69}","\u{ff69}","\u{30a5}","\u{30a5}"],
["\u{ff6a}","\u{ff6a}","\u{30a7}","\u{30a7}"],
["\u{ff6b}","\u{ff6b}","\u{30a9}","\u{30a9}"],
["\u{ff6c}","\u{ff6c}","\u{30e3}","\u{30e3}"],
["\u{ff6d}","\u{ff6d}","\u{30e5}","\u{30e5}"],
["\u{ff6e}","\u{ff6e}","\u{30e7}","\u{30e7}"],
["\u{ff6f}","\u{ff6f}","\u{30c3}","\u{30c3}"],
["\u{ff70}","\u{ff70}","\u{30fc}","\u{30fc}"],
["\u{ff71}","\u{ff71}","\u{30a2}","\u{30a2}"],
["\u{ff72}","\u{ff72}","\u{30a4}","\u{30a4}"],
["\u{ff73}","\u{ff73}","\u{30a6}","\u{30a6}"],
["\u{ff74}","\u{ff74}","\u{30a8}","\u{30a8}"],
["\u{ff75}","\u{ff75}","\u{30aa}","\u{30aa}"],
["\u{ff76}","\u{ff76}","\u{30ab}","\u{30ab}"],
["\u{ff77}","\u{ff77}","\u{30ad}","\u{30ad}"],
["\u{ff78}","\u{ff78}","\u{30af}","\u{30af}"],
["\u{ff79}","\u{ff79}","\u{30b1}","\u{30b1}"],
["\u{ff7a}","\u{ff7a}","\u{30b3}","\u{30b3}"],
["\u{ff7b}","\u{ff7b}","\u{30b5}","\u{30b5}"],
["\u{ff7c}","\u{ff7c}","\u{30b7}","\u{30b7}"],
["\u{ff7d}","\u{ff7d}","\u{30b9}","\u{30b9}"],
["\u{ff7e}","\u{ff7e}","\u{30bb}","\u{30bb}"],
["\u{ff7f}","\u{ff7f}","\u{30bd}","\u{30bd}"],
["\u{ff80}","\u{ff80}","\u{30bf}","\u{30bf}"],
["\u{ff81}","\u{ff81}","\u{30c1}","\u{30c1}"],
["\u{ff82}","\u{ff82}","\u{30c4}","\u{30c4}"],
["\u{ff83}","\u{ff83}","\u{30c6}","\u{30c6}"],
["\u{ff84}","\u{ff84}","\u{30c8}","\u{30c8}"],
["\u{ff85}","\u{ff85}","\u{30ca}","\u{30ca}"],
["\u{ff86}","\u{ff86}","\u{30cb}","\u{30cb}"],
["\u{ff87}","\u{ff87}","\u{30cc}","\u{30cc}"],
["\u{ff88}","\u{ff88}","\u{30cd}","\u{30cd}"],
["\u{ff89}","\u{ff89}","\u{30ce}","\u{30ce}"],
["\u{ff8a}","\u{ff8a}","\u{30cf}","\u{30cf}"],
["\u{ff8b}","\u{ff8b}","\u{30d2}","\u{30d2}"],
["\u{ff8c}","\u{ff8c}","\u{30d5}","\u{30d5}"],
["\u{ff8d}","\u{ff8d}","\u{30d8}","\u{30d8}"],
["\u{ff8e}","\u{ff8e}","\u{30db}","\u{30db}"],
["\u{ff8f}","\u{ff8f}","\u{30de}","\u{30de}"],
["\u{ff90}","\u{ff90}","\u{30df}","\u{30df}"],
["\u{ff91}","\u{ff91}","\u{30e0}","\u{30e0}"],
["\u{ff92}","\u{ff92}","\u{30e1}","\u{30e1}"],
["\u{ff93}","\u{ff93}","\u{30e2}","\u{30e2}"],
["\u{ff94}","\u{ff94}","\u{30e4}","\u{30e4}"],
["\u{ff95}","\u{ff95}","\u{30e6}","\u{30e6}"],
["\u{ff96}","\u{ff96}","\u{30e8}","\u{30e8}"],
["\u{ff97}","\u{ff97}","\u{30e9}","\u{30e9}"],
["\u{ff98}","\u{ff98}","\u{30ea}","\u{30ea}"],
["\u{ff99}","\u{ff99}","\u{30eb}","\u{30eb}"],
["\u{ff9a}","\u{ff9a}","\u{30ec}","\u{30ec}"],
["\u{ff9b}","\u{ff9b}","\u{30ed}","\u{30ed}"],
["\u{ff9c}","\u{ff9c}","\u{30ef}","\u{30ef}"],
["\u{ff9d}","\u{ff9d}","\u{30f3}","\u{30f3}"],
["\u{ff9e}","\u{ff9e}","\u{3099}","\u{3099}"],
["\u{ff9f}","\u{ff9f}","\u{309a}","\u{309a}"],
["\u{ffa0}","\u{ffa0}","\u{1160}","\u{1160}"],
["\u{ffa1}","\u{ffa1}","\u{1100}","\u{1100}"],
["\u{ffa2}","\u{ffa2}","\u{1101}","\u{1101}"],
["\u{ffa3}","\u{ffa3}","\u{11aa}","\u{11aa}"],
["\u{ffa4}","\u{ffa4}","\u{1102}","\u{1102}"],
["\u{ffa5}","\u{ffa5}","\u{11ac}","\u{11ac}"],
["\u{ffa6}","\u{ffa6}","\u{11ad}","\u{11ad}"],
["\u{ffa7}","\u{ffa7}","\u{1103}","\u{1103}"],
["\u{ffa8}","\u{ffa8}","\u{1104}","\u{1104}"],
["\u{ffa9}","\u{ffa9}","\u{1105}","\u{1105}"],
["\u{ffaa}","\u{ffaa}","\u{11b0}","\u{11b0}"],
["\u{ffab}","\u{ffab}","\u{11b1}","\u{11b1}"],
["\u{ffac}","\u{ffac}","\u{11b2}","\u{11b2}"],
["\u{ffad}","\u{ffad}","\u{11b3}","\u{11b3}"],
["\u{ffae}","\u{ffae}","\u{11b4}","\u{11b4}"],
["\u{ffaf}","\u{ffaf}","\u{11b5}","\u{11b5}"],
["\u{ffb0}","\u{ffb0}","\u{111a}","\u{111a}"],
["\u{ffb1}","\u{ffb1}","\u{1106}","\u{1106}"],
["\u{ffb2}","\u{ffb2}","\u{1107}","\u{1107}"],
["\u{ffb3}","\u{ffb3}","\u{1108}","\u{1108}"],
["\u{ffb4}","\u{ffb4}","\u{1121}","\u{1121}"],
["\u{ffb5}","\u{ffb5}","\u{1109}","\u{1109}"],
["\u{ffb6}","\u{ffb6}","\u{110a}","\u{110a}"],
["\u{ffb7}","\u{ffb7}","\u{110b}","\u{110b}"],
["\u{ffb8}","\u{ffb8}","\u{110c}","\u{110c}"],
["\u{ffb9}","\u{ffb9}","\u{110d}","\u{110d}"],
["\u{ffba}","\u{ffba}","\u{110e}","\u{110e}"],
["\u{ffbb}","\u{ffbb}","\u{110f}","\u{110f}"],
["\u{ffbc}","\u{ffbc}","\u{1110}","\u{1110}"],
["\u{ffbd}","\u{ffbd}","\u{1111}","\u{1111}"],
["\u{ffbe}","\u{ffbe}","\u{1112}","\u{1112}"],
["","","",""],
["","","",""],
["","","",""],
["\u{ffc2}","\u{ffc2}","\u{1161}","\u{1161}"],
["\u{ffc3}","\u{ffc3}","\u{1162}","\u{1162}"],
["\u{ffc4}","\u{ffc4}","\u{1163}","\u{1163}"],
["\u{ffc5}","\u{ffc5}","\u{1164}","\u{1164}"],
["\u{ffc6}","\u{ffc6}","\u{1165}","\u{1165}"],
["\u{ffc7}","\u{ffc7}","\u{1166}","\u{1166}"],
["","","",""],
["","","",""],
["\u{ffca}","\u{ffca}","\u{1167}","\u{1167}"],
["\u{ffcb}","\u{ffcb}","\u{1168}","\u{1168}"],
["\u{ffcc}","\u{ffcc}","\u{1169}","\u{1169}"],
["\u{ffcd}","\u{ffcd}","\u{116a}","\u{116a}"],
["\u{ffce}","\u{ffce}","\u{116b}","\u{116b}"],
["\u{ffcf}","\u{ffcf}","\u{116c}","\u{116c}"],
["","","",""],
["","","",""],
["\u{ffd2}","\u{ffd2}","\u{116d}","\u{116d}"],
["\u{ffd3}","\u{ffd3}","\u{116e}","\u{116e}"],
["\u{ffd4}","\u{ffd4}","\u{116f}","\u{116f}"],
["\u{ffd5}","\u{ffd5}","\u{1170}","\u{1170}"],
["\u{ffd6}","\u{ffd6}","\u{1171}","\u{1171}"],
["\u{ffd7}","\u{ffd7}","\u{1172}","\u{1172}"],
["","","",""],
["","","",""],
["\u{ffda}","\u{ffda}","\u{1173}","\u{1173}"],
["\u{ffdb}","\u{ffdb}","\u{1174}","\u{1174}"],
["\u{ffdc}","\u{ffdc}","\u{1175}","\u{1175}"],
["","","",""],
["","","",""],
["","","",""],
["\u{ffe0}","\u{ffe0}","\u{a2}","\u{a2}"],
["\u{ffe1}","\u{ffe1}","\u{a3}","\u{a3}"],
["\u{ffe2}","\u{ffe2}","\u{ac}","\u{ac}"],
["\u{ffe3}","\u{ffe3}","\u{20}\u{304}","\u{20}\u{304}"],
["\u{ffe4}","\u{ffe4}","\u{a6}","\u{a6}"],
["\u{ffe5}","\u{ffe5}","\u{a5}","\u{a5}"],
["\u{ffe6}","\u{ffe6}","\u{20a9}","\u{20a9}"],
["","","",""],
["\u{ffe8}","\u{ffe8}","\u{2502}","\u{2502}"],
["\u{ffe9}","\u{ffe9}","\u{2190}","\u{2190}"],
["\u{ffea}","\u{ffea}","\u{2191}","\u{2191}"],
["\u{ffeb}","\u{ffeb}","\u{2192}","\u{2192}"],
["\u{ffec}","\u{ffec}","\u{2193}","\u{2193}"],
["\u{ffed}","\u{ffed}","\u{25a0}","\u{25a0}"],
["\u{ffee}","\u{ffee}","\u{25cb}","\u{25cb}"],
    ]),
    (0xf900, 0xfa6d, &[
["\u{8c48}","\u{8c48}","\u{8c48}","\u{8c48}"],
["\u{66f4}","\u{66f4}","\u{66f4}","\u{66f4}"],
["\u{8eca}","\u{8eca}","\u{8eca}","\u{8eca}"],
["\u{8cc8}","\u{8cc8}","\u{8cc8}","\u{8cc8}"],
["\u{6ed1}","\u{6ed1}","\u{6ed1}","\u{6ed1}"],
["\u{4e32}","\u{4e32}","\u{4e32}","\u{4e32}"],
["\u{53e5}","\u{53e5}","\u{53e5}","\u{53e5}"],
["\u{9f9c}","\u{9f9c}","\u{9f9c}","\u{9f9c}"],
["\u{9f9c}","\u{9f9c}","\u{9f9c}","\u{9f9c}"],
["\u{5951}","\u{5951}","\u{5951}","\u{5951}"],
["\u{91d1}","\u{91d1}","\u{91d1}","\u{91d1}"],
["\u{5587}","\u{5587}","\u{5587}","\u{5587}"],
["\u{5948}","\u{5948}","\u{5948}","\u{5948}"],
["\u{61f6}","\u{61f6}","\u{61f6}","\u{61f6}"],
["\u{7669}","\u{7669}","\u{7669}","\u{7669}"],
["\u{7f85}","\u{7f85}","\u{7f85}","\u{7f85}"],
["\u{863f}","\u{863f}","\u{863f}","\u{863f}"],
["\u{87ba}","\u{87ba}","\u{87ba}","\u{87ba}"],
["\u{88f8}","\u{88f8}","\u{88f8}","\u{88f8}"],
["\u{908f}","\u{908f}","\u{908f}","\u{908f}"],
["\u{6a02}","\u{6a02}","\u{6a02}","\u{6a02}"],
["\u{6d1b}","\u{6d1b}","\u{6d1b}","\u{6d1b}"],
["\u{70d9}","\u{70d9}","\u{70d9}","\u{70d9}"],
["\u{73de}","\u{73de}","\u{73de}","\u{73de}"],
["\u{843d}","\u{843d}","\u{843d}","\u{843d}"],
["\u{916a}","\u{916a}","\u{916a}","\u{916a}"],
["\u{99f1}","\u{99f1}","\u{99f1}","\u{99f1}"],
["\u{4e82}","\u{4e82}","\u{4e82}","\u{4e82}"],
["\u{5375}","\u{5375}","\u{5375}","\u{5375}"],
["\u{6b04}","\u{6b04}","\u{6b04}","\u{6b04}"],
["\u{721b}","\u{721b}","\u{721b}","\u{721b}"],
["\u{862d}","\u{862d}","\u{862d}","\u{862d}"],
["\u{9e1e}","\u{9e1e}","\u{9e1e}","\u{9e1e}"],
["\u{5d50}","\u{5d50}","\u{5d50}","\u{5d50}"],
["\u{6feb}","\u{6feb}","\u{6feb}","\u{6feb}"],
["\u{85cd}","\u{85cd}","\u{85cd}","\u{85cd}"],
["\u{8964}","\u{8964}","\u{8964}","\u{8964}"],
["\u{62c9}","\u{62c9}","\u{62c9}","\u{62c9}"],
["\u{81d8}","\u{81d8}","\u{81d8}","\u{81d8}"],
["\u{881f}","\u{881f}","\u{881f}","\u{881f}"],
["\u{5eca}","\u{5eca}","\u{5eca}","\u{5eca}"],
["\u{6717}","\u{6717}","\u{6717}","\u{6717}"],
["\u{6d6a}","\u{6d6a}","\u{6d6a}","\u{6d6a}"],
["\u{72fc}","\u{72fc}","\u{72fc}","\u{72fc}"],
["\u{90ce}","\u{90ce}","\u{90ce}","\u{90ce}"],
["\u{4f86}","\u{4f86}","\u{4f86}","\u{4f86}"],
["\u{51b7}","\u{51b7}","\u{51b7}","\u{51b7}"],
["\u{52de}","\u{52de}","\u{52de}","\u{52de}"],
["\u{64c4}","\u{64c4}","\u{64c4}","\u{64c4}"],
["\u{6ad3}","\u{6ad3}","\u{6ad3}","\u{6ad3}"],
["\u{7210}","\u{7210}","\u{7210}","\u{7210}"],
["\u{76e7}","\u{76e7}","\u{76e7}","\u{76e7}"],
["\u{8001}","\u{8001}","\u{8001}","\u{8001}"],
["\u{8606}","\u{8606}","\u{8606}","\u{8606}"],
["\u{865c}","\u{865c}","\u{865c}","\u{865c}"],
["\u{8def}","\u{8def}","\u{8def}","\u{8def}"],
["\u{9732}","\u{9732}","\u{9732}","\u{9732}"],
["\u{9b6f}","\u{9b6f}","\u{9b6f}","\u{9b6f}"],
["\u{9dfa}","\u{9dfa}","\u{9dfa}","\u{9dfa}"],
["\u{788c}","\u{788c}","\u{788c}","\u{788c}"],
["\u{797f}","\u{797f}","\u{797f}","\u{797f}"],
["\u{7da0}","\u{7da0}","\u{7da0}","\u{7da0}"],
["\u{83c9}","\u{83c9}","\u{83c9}","\u{83c9}"],
["\u{9304}","\u{9304}","\u{9304}","\u{9304}"],
["\u{9e7f}","\u{9e7f}","\u{9e7f}","\u{9e7f}"],
["\u{8ad6}","\u{8ad6}","\u{8ad6}","\u{8ad6}"],
["\u{58df}","\u{58df}","\u{58df}","\u{58df}"],
["\u{5f04}","\u{5f04}","\u{5f04}","\u{5f04}"],
["\u{7c60}","\u{7c60}","\u{7c60}","\u{7c60}"],
["\u{807e}","\u{807e}","\u{807e}","\u{807e}"],
["\u{7262}","\u{7262}","\u{7262}","\u{7262}"],
["\u{78ca}","\u{78ca}","\u{78ca}","\u{78ca}"],
["\u{8cc2}","\u{8cc2}","\u{8cc2}","\u{8cc2}"],
["\u{96f7}","\u{96f7}","\u{96f7}","\u{96f7}"],
["\u{58d8}","\u{58d8}","\u{58d8}","\u{58d8}"],
["\u{5c62}","\u{5c62}","\u{5c62}","\u{5c62}"],
["\u{6a13}","\u{6a13}","\u{6a13}","\u{6a13}"],
["\u{6dda}","\u{6dda}","\u{6dda}","\u{6dda}"],
["\u{6f0f}","\u{6f0f}","\u{6f0f}","\u{6f0f}"],
["\u{7d2f}","\u{7d2f}","\u{7d2f}","\u{7d2f}"],
["\u{7e37}","\u{7e37}","\u{7e37}","\u{7e37}"],
["\u{964b}","\u{964b}","\u{964b}","\u{964b}"],
["\u{52d2}","\u{52d2}","\u{52d2}","\u{52d2}"],
["\u{808b}","\u{808b}","\u{808b}","\u{808b}"],
["\u{51dc}","\u{51dc}","\u{51dc}","\u{51dc}"],
["\u{51cc}","\u{51cc}","\u{51cc}","\u{51cc}"],
["\u{7a1c}","\u{7a1c}","\u{7a1c}","\u{7a1c}"],
["\u{7dbe}","\u{7dbe}","\u{7dbe}","\u{7dbe}"],
["\u{83f1}","\u{83f1}","\u{83f1}","\u{83f1}"],
["\u{9675}","\u{9675}","\u{9675}","\u{9675}"],
["\u{8b80}","\u{8b80}","\u{8b80}","\u{8b80}"],
["\u{62cf}","\u{62cf}","\u{62cf}","\u{62cf}"],
["\u{6a02}","\u{6a02}","\u{6a02}","\u{6a02}"],
["\u{8afe}","\u{8afe}","\u{8afe}","\u{8afe}"],
["\u{4e39}","\u{4e39}","\u{4e39}","\u{4e39}"],
["\u{5be7}","\u{5be7}","\u{5be7}","\u{5be7}"],
["\u{6012}","\u{6012}","\u{6012}","\u{6012}"],
["\u{7387}","\u{7387}","\u{7387}","\u{7387}"],
["\u{7570}","\u{7570}","\u{7570}","\u{7570}"],
["\u{5317}","\u{5317}","\u{5317}","\u{5317}"],
["\u{78fb}","\u{78fb}","\u{78fb}","\u{78fb}"],
["\u{4fbf}","\u{4fbf}","\u{4fbf}","\u{4fbf}"],
["\u{5fa9}","\u{5fa9}","\u{5fa9}","\u{5fa9}"],
["\u{4e0d}","\u{4e0d}","\u{4e0d}","\u{4e0d}"],
["\u{6ccc}","\u{6ccc}","\u{6ccc}","\u{6ccc}"],
["\u{6578}","\u{6578}","\u{6578}","\u{6578}"],
["\u{7d22}","\u{7d22}","\u{7d22}","\u{7d22}"],
["\u{53c3}","\u{53c3}","\u{53c3}","\u{53c3}"],
["\u{585e}","\u{585e}","\u{585e}","\u{585e}"],
["\u{7701}","\u{7701}","\u{7701}","\u{7701}"],
["\u{8449}","\u{8449}","\u{8449}","\u{8449}"],
["\u{8aaa}","\u{8aaa}","\u{8aaa}","\u{8aaa}"],
["\u{6bba}","\u{6bba}","\u{6bba}","\u{6bba}"],
["\u{8fb0}","\u{8fb0}","\u{8fb0}","\u{8fb0}"],
["\u{6c88}","\u{6c88}","\u{6c88}","\u{6c88}"],
["\u{62fe}","\u{62fe}","\u{62fe}","\u{62fe}"],
["\u{82e5}","\u{82e5}","\u{82e5}","\u{82e5}"],
["\u{63a0}","\u{63a0}","\u{63a0}","\u{63a0}"],
["\u{7565}","\u{7565}","\u{7565}","\u{7565}"],
["\u{4eae}","\u{4eae}","\u{4eae}","\u{4eae}"],
["\u{5169}","\u{5169}","\u{5169}","\u{5169}"],
["\u{51c9}","\u{51c9}","\u{51c9}","\u{51c9}"],
["\u{6881}","\u{6881}","\u{6881}","\u{6881}"],
["\u{7ce7}","\u{7ce7}","\u{7ce7}","\u{7ce7}"],
["\u{826f}","\u{826f}","\u{826f}","\u{826f}"],
["\u{8ad2}","\u{8ad2}","\u{8ad2}","\u{8ad2}"],
["\u{91cf}","\u{91cf}","\u{91cf}","\u{91cf}"],
["\u{52f5}","\u{52f5}","\u{52f5}","\u{52f5}"],
["\u{5442}","\u{5442}","\u{5442}","\u{5442}"],
["\u{5973}","\u{5973}","\u{5973}","\u{5973}"],
["\u{5eec}","\u{5eec}","\u{5eec}","\u{5eec}"],
["\u{65c5}","\u{65c5}","\u{65c5}","\u{65c5}"],
["\u{6ffe}","\u{6ffe}","\u{6ffe}","\u{6ffe}"],
["\u{792a}","\u{792a}","\u{792a}","\u{792a}"],
["\u{95ad}","\u{95ad}","\u{95ad}","\u{95ad}"],
["\u{9a6a}","\u{9a6a}","\u{9a6a}","\u{9a6a}"],
["\u{9e97}","\u{9e97}","\u{9e97}","\u{9e97}"],
["\u{9ece}","\u{9ece}","\u{9ece}","\u{9ece}"],
["\u{529b}","\u{529b}","\u{529b}","\u{529b}"],
["\u{66c6}","\u{66c6}","\u{66c6}","\u{66c6}"],
["\u{6b77}","\u{6b77}","\u{6b77}","\u{6b77}"],
["\u{8f62}","\u{8f62}","\u{8f62}","\u{8f62}"],
["\u{5e74}","\u{5e74}","\u{5e74}","\u{5e74}"],
["\u{6190}","\u{6190}","\u{6190}","\u{6190}"],
["\u{6200}","\u{6200}","\u{6200}","\u{6200}"],
["\u{649a}","\u{649a}","\u{649a}","\u{649a}"],
["\u{6f23}","\u{6f23}","\u{6f23}","\u{6f23}"],
["\u{7149}","\u{7149}","\u{7149}","\u{7149}"],
["\u{7489}","\u{7489}","\u{7489}","\u{7489}"],
["\u{79ca}","\u{79ca}","\u{79ca}","\u{79ca}"],
["\u{7df4}","\u{7df4}","\u{7df4}","\u{7df4}"],
["\u{806f}","\u{806f}","\u{806f}","\u{806f}"],
["\u{8f26}","\u{8f26}","\u{8f26}","\u{8f26}"],
["\u{84ee}","\u{84ee}","\u{84ee}","\u{84ee}"],
["\u{9023}","\u{9023}","\u{9023}","\u{9023}"],
["\u{934a}","\u{934a}","\u{934a}","\u{934a}"],
["\u{5217}","\u{5217}","\u{5217}","\u{5217}"],
["\u{52a3}","\u{52a3}","\u{52a3}","\u{52a3}"],
["\u{54bd}","\u{54bd}","\u{54bd}","\u{54bd}"],
["\u{70c8}","\u{70c8}","\u{70c8}","\u{70c8}"],
["\u{88c2}","\u{88c2}","\u{88c2}","\u{88c2}"],
["\u{8aaa}","\u{8aaa}","\u{8aaa}","\u{8aaa}"],
["\u{5ec9}","\u{5ec9}","\u{5ec9}","\u{5ec9}"],
["\u{5ff5}","\u{5ff5}","\u{5ff5}","\u{5ff5}"],
["\u{637b}","\u{637b}","\u{637b}","\u{637b}"],
["\u{6bae}","\u{6bae}","\u{6bae}","\u{6bae}"],
["\u{7c3e}","\u{7c3e}","\u{7c3e}","\u{7c3e}"],
["\u{7375}","\u{7375}","\u{7375}","\u{7375}"],
["\u{4ee4}","\u{4ee4}","\u{4ee4}","\u{4ee4}"],
["\u{56f9}","\u{56f9}","\u{56f9}","\u{56f9}"],
["\u{5be7}","\u{5be7}","\u{5be7}","\u{5be7}"],
["\u{5dba}","\u{5dba}","\u{5dba}","\u{5dba}"],
["\u{601c}","\u{601c}","\u{601c}","\u{601c}"],
["\u{73b2}","\u{73b2}","\u{73b2}","\u{73b2}"],
["\u{7469}","\u{7469}","\u{7469}","\u{7469}"],
["\u{7f9a}","\u{7f9a}","\u{7f9a}","\u{7f9a}"],
["\u{8046}","\u{8046}","\u{8046}","\u{8046}"],
["\u{9234}","\u{9234}","\u{9234}","\u{9234}"],
["\u{96f6}","\u{96f6}","\u{96f6}","\u{96f6}"],
["\u{9748}","\u{9748}","\u{9748}","\u{9748}"],
["\u{9818}","\u{9818}","\u{9818}","\u{9818}"],
["\u{4f8b}","\u{4f8b}","\u{4f8b}","\u{4f8b}"],
["\u{79ae}","\u{79ae}","\u{79ae}","\u{79ae}"],
["\u{91b4}","\u{91b4}","\u{91b4}","\u{91b4}"],
["\u{96b8}","\u{96b8}","\u{96b8}","\u{96b8}"],
["\u{60e1}","\u{60e1}","\u{60e1}","\u{60e1}"],
["\u{4e86}","\u{4e86}","\u{4e86}","\u{4e86}"],
["\u{50da}","\u{50da}","\u{50da}","\u{50da}"],
["\u{5bee}","\u{5bee}","\u{5bee}","\u{5bee}"],
["\u{5c3f}","\u{5c3f}","\u{5c3f}","\u{5c3f}"],
["\u{6599}","\u{6599}","\u{6599}","\u{6599}"],
["\u{6a02}","\u{6a02}","\u{6a02}","\u{6a02}"],
["\u{71ce}","\u{71ce}","\u{71ce}","\u{71ce}"],
["\u{7642}","\u{7642}","\u{7642}","\u{7642}"],
["\u{84fc}","\u{84fc}","\u{84fc}","\u{84fc}"],
["\u{907c}","\u{907c}","\u{907c}","\u{907c}"],
["\u{9f8d}","\u{9f8d}","\u{9f8d}","\u{9f8d}"],
["\u{6688}","\u{6688}","\u{6688}","\u{6688}"],
["\u{962e}","\u{962e}","\u{962e}","\u{962e}"],
["\u{5289}","\u{5289}","\u{5289}","\u{5289}"],
["\u{677b}","\u{677b}","\u{677b}","\u{677b}"],
["\u{67f3}","\u{67f3}","\u{67f3}","\u{67f3}"],
["\u{6d41}","\u{6d41}","\u{6d41}","\u{6d41}"],
["\u{6e9c}","\u{6e9c}","\u{6e9c}","\u{6e9c}"],
["\u{7409}","\u{7409}","\u{7409}","\u{7409}"],
["\u{7559}","\u{7559}","\u{7559}","\u{7559}"],
["\u{786b}","\u{786b}","\u{786b}","\u{786b}"],
["\u{7d10}","\u{7d10}","\u{7d10}","\u{7d10}"],
["\u{985e}","\u{985e}","\u{985e}","\u{985e}"],
["\u{516d}","\u{516d}","\u{516d}","\u{516d}"],
["\u{622e}","\u{622e}","\u{622e}","\u{622e}"],
["\u{9678}","\u{9678}","\u{9678}","\u{9678}"],
["\u{502b}","\u{502b}","\u{502b}","\u{502b}"],
["\u{5d19}","\u{5d19}","\u{5d19}","\u{5d19}"],
["\u{6dea}","\u{6dea}","\u{6dea}","\u{6dea}"],
["\u{8f2a}","\u{8f2a}","\u{8f2a}","\u{8f2a}"],
["\u{5f8b}","\u{5f8b}","\u{5f8b}","\u{5f8b}"],
["\u{6144}","\u{6144}","\u{6144}","\u{6144}"],
["\u{6817}","\u{6817}","\u{6817}","\u{6817}"],
["\u{7387}","\u{7387}","\u{7387}","\u{7387}"],
["\u{9686}","\u{9686}","\u{9686}","\u{9686}"],
["\u{5229}","\u{5229}","\u{5229}","\u{5229}"],
["\u{540f}","\u{540f}","\u{540f}","\u{540f}"],
["\u{5c65}","\u{5c65}","\u{5c65}","\u{5c65}"],
["\u{6613}","\u{6613}","\u{6613}","\u{6613}"],
["\u{674e}","\u{674e}","\u{674e}","\u{674e}"],
["\u{68a8}","\u{68a8}","\u{68a8}","\u{68a8}"],
["\u{6ce5}","\u{6ce5}","\u{6ce5}","\u{6ce5}"],
["\u{7406}","\u{7406}","\u{7406}","\u{7406}"],
["\u{75e2}","\u{75e2}","\u{75e2}","\u{75e2}"],
["\u{7f79}","\u{7f79}","\u{7f79}","\u{7f79}"],
["\u{88cf}","\u{88cf}","\u{88cf}","\u{88cf}"],
["\u{88e1}","\u{88e1}","\u{88e1}","\u{88e1}"],
["\u{91cc}","\u{91cc}","\u{91cc}","\u{91cc}"],
["\u{96e2}","\u{96e2}","\u{96e2}","\u{96e2}"],
["\u{533f}","\u{533f}","\u{533f}","\u{533f}"],
["\u{6eba}","\u{6eba}","\u{6eba}","\u{6eba}"],
["\u{541d}","\u{541d}","\u{541d}","\u{541d}"],
["\u{71d0}","\u{71d0}","\u{71d0}","\u{71d0}"],
["\u{7498}","\u{7498}","\u{7498}","\u{7498}"],
["\u{85fa}","\u{85fa}","\u{85fa}","\u{85fa}"],
["\u{96a3}","\u{96a3}","\u{96a3}","\u{96a3}"],
["\u{9c57}","\u{9c57}","\u{9c57}","\u{9c57}"],
["\u{9e9f}","\u{9e9f}","\u{9e9f}","\u{9e9f}"],
["\u{6797}","\u{6797}","\u{6797}","\u{6797}"],
["\u{6dcb}","\u{6dcb}","\u{6dcb}","\u{6dcb}"],
["\u{81e8}","\u{81e8}","\u{81e8}","\u{81e8}"],
["\u{7acb}","\u{7acb}","\u{7acb}","\u{7acb}"],
["\u{7b20}","\u{7b20}","\u{7b20}","\u{7b20}"],
["\u{7c92}","\u{7c92}","\u{7c92}","\u{7c92}"],
["\u{72c0}","\u{72c0}","\u{72c0}","\u{72c0}"],
["\u{7099}","\u{7099}","\u{7099}","\u{7099}"],
["\u{8b58}","\u{8b58}","\u{8b58}","\u{8b58}"],
["\u{4ec0}","\u{4ec0}","\u{4ec0}","\u{4ec0}"],
["\u{8336}","\u{8336}","\u{8336}","\u{8336}"],
["\u{523a}","\u{523a}","\u{523a}","\u{523a}"],
["\u{5207}","\u{5207}","\u{5207}","\u{5207}"],
["\u{5ea6}","\u{5ea6}","\u{5ea6}","\u{5ea6}"],
["\u{62d3}","\u{62d3}","\u{62d3}","\u{62d3}"],
["\u{7cd6}","\u{7cd6}","\u{7cd6}","\u{7cd6}"],
["\u{5b85}","\u{5b85}","\u{5b85}","\u{5b85}"],
["\u{6d1e}","\u{6d1e}","\u{6d1e}","\u{6d1e}"],
["\u{66b4}","\u{66b4}","\u{66b4}","\u{66b4}"],
["\u{8f3b}","\u{8f3b}","\u{8f3b}","\u{8f3b}"],
["\u{884c}","\u{884c}","\u{884c}","\u{884c}"],
["\u{964d}","\u{964d}","\u{964d}","\u{964d}"],
["\u{898b}","\u{898b}","\u{898b}","\u{898b}"],
["\u{5ed3}","\u{5ed3}","\u{5ed3}","\u{5ed3}"],
["\u{5140}","\u{5140}","\u{5140}","\u{5140}"],
["\u{55c0}","\u{55c0}","\u{55c0}","\u{55c0}"],
["\u{fa0e}","\u{fa0e}","\u{fa0e}","\u{fa0e}"],
["\u{fa0f}","\u{fa0f}","\u{fa0f}","\u{fa0f}"],
["\u{585a}","\u{585a}","\u{585a}","\u{585a}"],
["\u{fa11}","\u{fa11}","\u{fa11}","\u{fa11}"],
["\u{6674}","\u{6674}","\u{6674}","\u{6674}"],
["\u{fa13}","\u{fa13}","\u{fa13}","\u{fa13}"],
["\u{fa14}","\u{fa14}","\u{fa14}","\u{fa14}"],
["\u{51de}","\u{51de}","\u{51de}","\u{51de}"],
["\u{732a}","\u{732a}","\u{732a}","\u{732a}"],
["\u{76ca}","\u{76ca}","\u{76ca}","\u{76ca}"],
["\u{793c}","\u{793c}","\u{793c}","\u{793c}"],
["\u{795e}","\u{795e}","\u{795e}","\u{795e}"],
["\u{7965}","\u{7965}","\u{7965}","\u{7965}"],
["\u{798f}","\u{798f}","\u{798f}","\u{798f}"],
["\u{9756}","\u{9756}","\u{9756}","\u{9756}"],
["\u{7cbe}","\u{7cbe}","\u{7cbe}","\u{7cbe}"],
["\u{7fbd}","\u{7fbd}","\u{7fbd}","\u{7fbd}"],
["\u{fa1f}","\u{fa1f}","\u{fa1f}","\u{fa1f}"],
["\u{8612}","\u{8612}","\u{8612}","\u{8612}"],
["\u{fa21}","\u{fa21}","\u{fa21}","\u{fa21}"],
["\u{8af8}","\u{8af8}","\u{8af8}","\u{8af8}"],
["\u{fa23}","\u{fa23}","\u{fa23}","\u{fa23}"],
["\u{fa24}","\u{fa24}","\u{fa24}","\u{fa24}"],
["\u{9038}","\u{9038}","\u{9038}","\u{9038}"],
["\u{90fd}","\u{90fd}","\u{90fd}","\u{90fd}"],
["\u{fa27}","\u{fa27}","\u{fa27}","\u{fa27}"],
["\u{fa28}","\u{fa28}","\u{fa28}","\u{fa28}"],
["\u{fa29}","\u{fa29}","\u{fa29}","\u{fa29}"],
["\u{98ef}","\u{98ef}","\u{98ef}","\u{98ef}"],
["\u{98fc}","\u{98fc}","\u{98fc}","\u{98fc}"],
["\u{9928}","\u{9928}","\u{9928}","\u{9928}"],
["\u{9db4}","\u{9db4}","\u{9db4}","\u{9db4}"],
["\u{90de}","\u{90de}","\u{90de}","\u{90de}"],
["\u{96b7}","\u{96b7}","\u{96b7}","\u{96b7}"],
["\u{4fae}","\u{4fae}","\u{4fae}","\u{4fae}"],
["\u{50e7}","\u{50e7}","\u{50e7}","\u{50e7}"],
["\u{514d}","\u{514d}","\u{514d}","\u{514d}"],
["\u{52c9}","\u{52c9}","\u{52c9}","\u{52c9}"],
["\u{52e4}","\u{52e4}","\u{52e4}","\u{52e4}"],
["\u{5351}","\u{5351}","\u{5351}","\u{5351}"],
["\u{559d}","\u{559d}","\u{559d}","\u{559d}"],
["\u{5606}","\u{5606}","\u{5606}","\u{5606}"],
["\u{5668}","\u{5668}","\u{5668}","\u{5668}"],
["\u{5840}","\u{5840}","\u{5840}","\u{5840}"],
["\u{58a8}","\u{58a8}","\u{58a8}","\u{58a8}"],
["\u{5c64}","\u{5c64}","\u{5c64}","\u{5c64}"],
["\u{5c6e}","\u{5c6e}","\u{5c6e}","\u{5c6e}"],
["\u{6094}","\u{6094}","\u{6094}","\u{6094}"],
["\u{6168}","\u{6168}","\u{6168}","\u{6168}"],
["\u{618e}","\u{618e}","\u{618e}","\u{618e}"],
["\u{61f2}","\u{61f2}","\u{61f2}","\u{61f2}"],
["\u{654f}","\u{654f}","\u{654f}","\u{654f}"],
["\u{65e2}","\u{65e2}","\u{65e2}","\u{65e2}"],
["\u{6691}","\u{6691}","\u{6691}","\u{6691}"],
["\u{6885}","\u{6885}","\u{6885}","\u{6885}"],
["\u{6d77}","\u{6d77}","\u{6d77}","\u{6d77}"],
["\u{6e1a}","\u{6e1a}","\u{6e1a}","\u{6e1a}"],
["\u{6f22}","\u{6f22}","\u{6f22}","\u{6f22}"],
["\u{716e}","\u{716e}","\u{716e}","\u{716e}"],
["\u{722b}","\u{722b}","\u{722b}","\u{722b}"],
["\u{7422}","\u{7422}","\u{7422}","\u{7422}"],
["\u{7891}","\u{7891}","\u{7891}","\u{7891}"],
["\u{793e}","\u{793e}","\u{793e}","\u{793e}"],
["\u{7949}","\u{7949}","\u{7949}","\u{7949}"],
["\u{7948}","\u{7948}","\u{7948}","\u{7948}"],
["\u{7950}","\u{7950}","\u{7950}","\u{7950}"],
["\u{7956}","\u{7956}","\u{7956}","\u{7956}"],
["\u{795d}","\u{795d}","\u{795d}","\u{795d}"],
["\u{798d}","\u{798d}","\u{798d}","\u{798d}"],
["\u{798e}","\u{798e}","\u{798e}","\u{798e}"],
["\u{7a40}","\u{7a40}","\u{7a40}","\u{7a40}"],
["\u{7a81}","\u{7a81}","\u{7a81}","\u{7a81}"],
["\u{7bc0}","\u{7bc0}","\u{7bc0}","\u{7bc0}"],
["\u{7df4}","\u{7df4}","\u{7df4}","\u{7df4}"],
["\u{7e09}","\u{7e09}","\u{7e09}","\u{7e09}"],
["\u{7e41}","\u{7e41}","\u{7e41}","\u{7e41}"],
["\u{7f72}","\u{7f72}","\u{7f72}","\u{7f72}"],
["\u{8005}","\u{8005}","\u{8005}","\u{8005}"],
["\u{81ed}","\u{81ed}","\u{81ed}","\u{81ed}"],
["\u{8279}","\u{8279}","\u{8279}","\u{8279}"],
["\u{8279}","\u{8279}","\u{8279}","\u{8279}"],
["\u{8457}","\u{8457}","\u{8457}","\u{8457}"],
["\u{8910}","\u{8910}","\u{8910}","\u{8910}"],
["\u{8996}","\u{8996}","\u{8996}","\u{8996}"],
["\u{8b01}","\u{8b01}","\u{8b01}","\u{8b01}"],
["\u{8b39}","\u{8b39}","\u{8b39}","\u{8b39}"],
["\u{8cd3}","\u{8cd3}","\u{8cd3}","\u{8cd3}"],
["\u{8d08}","\u{8d08}","\u{8d08}","\u{8d08}"],
["\u{8fb6}","\u{8fb6}","\u{8fb6}","\u{8fb6}"],
["\u{9038}","\u{9038}","\u{9038}","\u{9038}"],
["\u{96e3}","\u{96e3}","\u{96e3}","\u{96e3}"],
["\u{97ff}","\u{97ff}","\u{97ff}","\u{97ff}"],
["\u{983b}","\u{983b}","\u{983b}","\u{983b}"],
["\u{6075}","\u{6075}","\u{6075}","\u{6075}"],
["\u{242ee}","\u{242ee}","\u{242ee}","\u{242ee}"],
["\u{8218}","\u{8218}","\u{8218}","\u{8218}"],
    ]),
    (0x2460, 0x24ff, &[
["\u{2460}","\u{2460}","\u{31}","\u{31}"],
["\u{2461}","\u{2461}","\u{32}","\u{32}"],
["\u{2462}","\u{2462}","\u{33}","\u{33}"],
["\u{2463}","\u{2463}","\u{34}","\u{34}"],
["\u{2464}","\u{2464}","\u{35}","\u{35}"],
["\u{2465}","\u{2465}","\u{36}","\u{36}"],
["\u{2466}","\u{2466}","\u{37}","\u{37}"],
["\u{2467}","\u{2467}","\u{38}","\u{38}"],
["\u{2468}","\u{2468}","\u{39}","\u{39}"],
["\u{2469}","\u{2469}","\u{31}\u{30}","\u{31}\u{30}"],
["\u{246a}","\u{246a}","\u{31}\u{31}","\u{31}\u{31}"],
["\u{246b}","\u{246b}","\u{31}\u{32}","\u{31}\u{32}"],
["\u{246c}","\u{246c}","\u{31}\u{33}","\u{31}\u{33}"],
["\u{246d}","\u{246d}","\u{31}\u{34}","\u{31}\u{34}"],
["\u{246e}","\u{246e}","\u{31}\u{35}","\u{31}\u{35}"],
["\u{246f}","\u{246f}","\u{31}\u{36}","\u{31}\u{36}"],
["\u{2470}","\u{2470}","\u{31}\u{37}","\u{31}\u{37}"],
["\u{2471}","\u{2471}","\u{31}\u{38}","\u{31}\u{38}"],
["\u{2472}","\u{2472}","\u{31}\u{39}","\u{31}\u{39}"],
["\u{2473}","\u{2473}","\u{32}\u{30}","\u{32}\u{30}"],
["\u{2474}","\u{2474}","\u{28}\u{31}\u{29}","\u{28}\u{31}\u{29}"],
["\u{2475}","\u{2475}","\u{28}\u{32}\u{29}","\u{28}\u{32}\u{29}"],
["\u{2476}","\u{2476}","\u{28}\u{33}\u{29}","\u{28}\u{33}\u{29}"],
["\u{2477}","\u{2477}","\u{28}\u{34}\u{29}","\u{28}\u{34}\u{29}"],
["\u{2478}","\u{2478}","\u{28}\u{35}\u{29}","\u{28}\u{35}\u{29}"],
["\u{2479}","\u{2479}","\u{28}\u{36}\u{29}","\u{28}\u{36}\u{29}"],
["\u{247a}","\u{247a}","\u{28}\u{37}\u{29}","\u{28}\u{37}\u{29}"],
["\u{247b}","\u{247b}","\u{28}\u{38}\u{29}","\u{28}\u{38}\u{29}"],
["\u{247c}","\u{247c}","\u{28}\u{39}\u{29}","\u{28}\u{39}\u{29}"],
["\u{247d}","\u{247d}","\u{28}\u{31}\u{30}\u{29}","\u{28}\u{31}\u{30}\u{29}"],
["\u{247e}","\u{247e}","\u{28}\u{31}\u{31}\u{29}","\u{28}\u{31}\u{31}\u{29}"],
["\u{247f}","\u{247f}","\u{28}\u{31}\u{32}\u{29}","\u{28}\u{31}\u{32}\u{29}"],
["\u{2480}","\u{2480}","\u{28}\u{31}\u{33}\u{29}","\u{28}\u{31}\u{33}\u{29}"],
["\u{2481}","\u{2481}","\u{28}\u{31}\u{34}\u{29}","\u{28}\u{31}\u{34}\u{29}"],
["\u{2482}","\u{2482}","\u{28}\u{31}\u{35}\u{29}","\u{28}\u{31}\u{35}\u{29}"],
["\u{2483}","\u{2483}","\u{28}\u{31}\u{36}\u{29}","\u{28}\u{31}\u{36}\u{29}"],
["\u{2484}","\u{2484}","\u{28}\u{31}\u{37}\u{29}","\u{28}\u{31}\u{37}\u{29}"],
["\u{2485}","\u{2485}","\u{28}\u{31}\u{38}\u{29}","\u{28}\u{31}\u{38}\u{29}"],
["\u{2486}","\u{2486}","\u{28}\u{31}\u{39}\u{29}","\u{28}\u{31}\u{39}\u{29}"],
["\u{2487}","\u{2487}","\u{28}\u{32}\u{30}\u{29}","\u{28}\u{32}\u{30}\u{29}"],
["\u{2488}","\u{2488}","\u{31}\u{2e}","\u{31}\u{2e}"],
["\u{2489}","\u{2489}","\u{32}\u{2e}","\u{32}\u{2e}"],
["\u{248a}","\u{248a}","\u{33}\u{2e}","\u{33}\u{2e}"],
["\u{248b}","\u{248b}","\u{34}\u{2e}","\u{34}\u{2e}"],
["\u{248c}","\u{248c}","\u{35}\u{2e}","\u{35}\u{2e}"],
["\u{248d}","\u{248d}","\u{36}\u{2e}","\u{36}\u{2e}"],
["\u{248e}","\u{248e}","\u{37}\u{2e}","\u{37}\u{2e}"],
["\u{248f}","\u{248f}","\u{38}\u{2e}","\u{38}\u{2e}"],
["\u{2490}","\u{2490}","\u{39}\u{2e}","\u{39}\u{2e}"],
["\u{2491}","\u{2491}","\u{31}\u{30}\u{2e}","\u{31}\u{30}\u{2e}"],
["\u{2492}","\u{2492}","\u{31}\u{31}\u{2e}","\u{31}\u{31}\u{2e}"],
["\u{2493}","\u{2493}","\u{31}\u{32}\u{2e}","\u{31}\u{32}\u{2e}"],
["\u{2494}","\u{2494}","\u{31}\u{33}\u{2e}","\u{31}\u{33}\u{2e}"],
["\u{2495}","\u{2495}","\u{31}\u{34}\u{2e}","\u{31}\u{34}\u{2e}"],
["\u{2496}","\u{2496}","\u{31}\u{35}\u{2e}","\u{31}\u{35}\u{2e}"],
["\u{2497}","\u{2497}","\u{31}\u{36}\u{2e}","\u{31}\u{36}\u{2e}"],
["\u{2498}","\u{2498}","\u{31}\u{37}\u{2e}","\u{31}\u{37}\u{2e}"],
["\u{2499}","\u{2499}","\u{31}\u{38}\u{2e}","\u{31}\u{38}\u{2e}"],
["\u{249a}","\u{249a}","\u{31}\u{39}\u{2e}","\u{31}\u{39}\u{2e}"],
["\u{249b}","\u{249b}","\u{32}\u{30}\u{2e}","\u{32}\u{30}\u{2e}"],
["\u{249c}","\u{249c}","\u{28}\u{61}\u{29}","\u{28}\u{61}\u{29}"],
["\u{249d}","\u{249d}","\u{28}\u{62}\u{29}","\u{28}\u{62}\u{29}"],
["\u{249e}","\u{249e}","\u{28}\u{63}\u{29}","\u{28}\u{63}\u{29}"],
["\u{249f}","\u{249f}","\u{28}\u{64}\u{29}","\u{28}\u{64}\u{29}"],
["\u{24a0}","\u{24a0}","\u{28}\u{65}\u{29}","\u{28}\u{65}\u{29}"],
["\u{24a1}","\u{24a1}","\u{28}\u{66}\u{29}","\u{28}\u{66}\u{29}"],
["\u{24a2}","\u{24a2}","\u{28}\u{67}\u{29}","\u{28}\u{67}\u{29}"],
["\u{24a3}","\u{24a3}","\u{28}\u{68}\u{29}","\u{28}\u{68}\u{29}"],
["\u{24a4}","\u{24a4}","\u{28}\u{69}\u{29}","\u{28}\u{69}\u{29}"],
["\u{24a5}","\u{24a5}","\u{28}\u{6a}\u{29}","\u{28}\u{6a}\u{29}"],
["\u{24a6}","\u{24a6}","\u{28}\u{6b}\u{29}","\u{28}\u{6b}\u{29}"],
["\u{24a7}","\u{24a7}","\u{28}\u{6c}\u{29}","\u{28}\u{6c}\u{29}"],
["\u{24a8}","\u{24a8}","\u{28}\u{6d}\u{29}","\u{28}\u{6d}\u{29}"],
["\u{24a9}","\u{24a9}","\u{28}\u{6e}\u{29}","\u{28}\u{6e}\u{29}"],
["\u{24aa}","\u{24aa}","\u{28}\u{6f}\u{29}","\u{28}\u{6f}\u{29}"],
["\u{24ab}","\u{24ab}","\u{28}\u{70}\u{29}","\u{28}\u{70}\u{29}"],
["\u{24ac}","\u{24ac}","\u{28}\u{71}\u{29}","\u{28}\u{71}\u{29}"],
["\u{24ad}","\u{24ad}","\u{28}\u{72}\u{29}","\u{28}\u{72}\u{29}"],
["\u{24ae}","\u{24ae}","\u{28}\u{73}\u{29}","\u{28}\u{73}\u{29}"],
["\u{24af}","\u{24af}","\u{28}\u{74}\u{29}","\u{28}\u{74}\u{29}"],
["\u{24b0}","\u{24b0}","\u{28}\u{75}\u{29}","\u{28}\u{75}\u{29}"],
["\u{24b1}","\u{24b1}","\u{28}\u{76}\u{29}","\u{28}\u{76}\u{29}"],
["\u{24b2}","\u{24b2}","\u{28}\u{77}\u{29}","\u{28}\u{77}\u{29}"],
["\u{24b3}","\u{24b3}","\u{28}\u{78}\u{29}","\u{28}\u{78}\u{29}"],
["\u{24b4}","\u{24b4}","\u{28}\u{79}\u{29}","\u{28}\u{79}\u{29}"],
["\u{24b5}","\u{24b5}","\u{28}\u{7a}\u{29}","\u{28}\u{7a}\u{29}"],
["\u{24b6}","\u{24b6}","\u{41}","\u{41}"],
["\u{24b7}","\u{24b7}","\u{42}","\u{42}"],
["\u{24b8}","\u{24b8}","\u{43}","\u{43}"],
["\u{24b9}","\u{24b9}","\u{44}","\u{44}"],
["\u{24ba}","\u{24ba}","\u{45}","\u{45}"],
["\u{24bb}","\u{24bb}","\u{46}","\u{46}"],
["\u{24bc}","\u{24bc}","\u{47}","\u{47}"],
["\u{24bd}","\u{24bd}","\u{48}","\u{48}"],
["\u{24be}","\u{24be}","\u{49}","\u{49}"],
["\u{24bf}","\u{24bf}","\u{4a}","\u{4a}"],
["\u{24c0}","\u{24c0}","\u{4b}","\u{4b}"],
["\u{24c1}","\u{24c1}","\u{4c}","\u{4c}"],
["\u{24c2}","\u{24c2}","\u{4d}","\u{4d}"],
["\u{24c3}","\u{24c3}","\u{4e}","\u{4e}"],
["\u{24c4}","\u{24c4}","\u{4f}","\u{4f}"],
["\u{24c5}","\u{24c5}","\u{50}","\u{50}"],
["\u{24c6}","\u{24c6}","\u{51}","\u{51}"],
["\u{24c7}","\u{24c7}","\u{52}","\u{52}"],
["\u{24c8}","\u{24c8}","\u{53}","\u{53}"],
["\u{24c9}","\u{24c9}","\u{54}","\u{54}"],
["\u{24ca}","\u{24ca}","\u{55}","\u{55}"],
["\u{24cb}","\u{24cb}","\u{56}","\u{56}"],
["\u{24cc}","\u{24cc}","\u{57}","\u{57}"],
["\u{24cd}","\u{24cd}","\u{58}","\u{58}"],
["\u{24ce}","\u{24ce}","\u{59}","\u{59}"],
["\u{24cf}","\u{24cf}","\u{5a}","\u{5a}"],
["\u{24d0}","\u{24d0}","\u{61}","\u{61}"],
["\u{24d1}","\u{24d1}","\u{62}","\u{62}"],
["\u{24d2}","\u{24d2}","\u{63}","\u{63}"],
["\u{24d3}","\u{24d3}","\u{64}","\u{64}"],
["\u{24d4}","\u{24d4}","\u{65}","\u{65}"],
["\u{24d5}","\u{24d5}","\u{66}","\u{66}"],
["\u{24d6}","\u{24d6}","\u{67}","\u{67}"],
["\u{24d7}","\u{24d7}","\u{68}","\u{68}"],
["\u{24d8}","\u{24d8}","\u{69}","\u{69}"],
["\u{24d9}","\u{24d9}","\u{6a}","\u{6a}"],
["\u{24da}","\u{24da}","\u{6b}","\u{6b}"],
["\u{24db}","\u{24db}","\u{6c}","\u{6c}"],
["\u{24dc}","\u{24dc}","\u{6d}","\u{6d}"],
["\u{24dd}","\u{24dd}","\u{6e}","\u{6e}"],
["\u{24de}","\u{24de}","\u{6f}","\u{6f}"],
["\u{24df}","\u{24df}","\u{70}","\u{70}"],
["\u{24e0}","\u{24e0}","\u{71}","\u{71}"],
["\u{24e1}","\u{24e1}","\u{72}","\u{72}"],
["\u{24e2}","\u{24e2}","\u{73}","\u{73}"],
["\u{24e3}","\u{24e3}","\u{74}","\u{74}"],
["\u{24e4}","\u{24e4}","\u{75}","\u{75}"],
["\u{24e5}","\u{24e5}","\u{76}","\u{76}"],
["\u{24e6}","\u{24e6}","\u{77}","\u{77}"],
["\u{24e7}","\u{24e7}","\u{78}","\u{78}"],
["\u{24e8}","\u{24e8}","\u{79}","\u{79}"],
["\u{24e9}","\u{24e9}","\u{7a}","\u{7a}"],
["\u{24ea}","\u{24ea}","\u{30}","\u{30}"],
["\u{24eb}","\u{24eb}","\u{24eb}","\u{24eb}"],
["\u{24ec}","\u{24ec}","\u{24ec}","\u{24ec}"],
["\u{24ed}","\u{24ed}","\u{24ed}","\u{24ed}"],
["\u{24ee}","\u{24ee}","\u{24ee}","\u{24ee}"],
["\u{24ef}","\u{24ef}","\u{24ef}","\u{24ef}"],
["\u{24f0}","\u{24f0}","\u{24f0}","\u{24f0}"],
["\u{24f1}","\u{24f1}","\u{24f1}","\u{24f1}"],
["\u{24f2}","\u{24f2}","\u{24f2}","\u{24f2}"],
["\u{24f3}","\u{24f3}","\u{24f3}","\u{24f3}"],
["\u{24f4}","\u{24f4}","\u{24f4}","\u{24f4}"],
["\u{24f5}","\u{24f5}","\u{24f5}","\u{24f5}"],
["\u{24f6}","\u{24f6}","\u{24f6}","\u{24f6}"],
["\u{24f7}","\u{24f7}","\u{24f7}","\u{24f7}"],
["\u{24f8}","\u{24f8}","\u{24f8}","\u{24f8}"],
["\u{24f9}","\u{24f9}","\u{24f9}","\u{24f9}"],
["\u{24fa}","\u{24fa}","\u{24fa}","\u{24fa}"],
["\u{24fb}","\u{24fb}","\u{24fb}","\u{24fb}"],
["\u{24fc}","\u{24fc}","\u{24fc}","\u{24fc}"],
["\u{24fd}","\u{24fd}","\u{24fd}","\u{24fd}"],
["\u{24fe}","\u{24fe}","\u{24fe}","\u{24fe}"],
["\u{24ff}","\u{24ff}","\u{24ff}","\u{24ff}"],
    ]),
    (0x3300, 0x33ff, &[
["\u{3300}","\u{3300}","\u{30a2}\u{30d1}\u{30fc}\u{30c8}","\u{30a2}\u{30cf}\u{309a}\u{30fc}\u{30c8}"],
["\u{3301}","\u{3301}","\u{30a2}\u{30eb}\u{30d5}\u{30a1}","\u{30a2}\u{30eb}\u{30d5}\u{30a1}"],
["\u{3302}","\u{3302}","\u{30a2}\u{30f3}\u{30da}\u{30a2}","\u{30a2}\u{30f3}\u{30d8}\u{309a}\u{30a2}"],
["\u{3303}","\u{3303}","\u{30a2}\u{30fc}\u{30eb}","\u{30a2}\u{30fc}\u{30eb}"],
["\u{3304}","\u{3304}","\u{30a4}\u{30cb}\u{30f3}\u{30b0}","\u{30a4}\u{30cb}\u{30f3}\u{30af}\u{3099}"],
["\u{3305}","\u{3305}","\u{30a4}\u{30f3}\u{30c1}","\u{30a4}\u{30f3}\u{30c1}"],
["\u{3306}","\u{3306}","\u{30a6}\u{30a9}\u{30f3}","\u{30a6}\u{30a9}\u{30f3}"],
["\u{3307}","\u{3307}","\u{30a8}\u{30b9}\u{30af}\u{30fc}\u{30c9}","\u{30a8}\u{30b9}\u{30af}\u{30fc}\u{30c8}\u{3099}"],
["\u{3308}","\u{3308}","\u{30a8}\u{30fc}\u{30ab}\u{30fc}","\u{30a8}\u{30fc}\u{30ab}\u{30fc}"],
["\u{3309}","\u{3309}","\u{30aa}\u{30f3}\u{30b9}","\u{30aa}\u{30f3}\u{30b9}"],
["\u{330a}","\u{330a}","\u{30aa}\u{30fc}\u{30e0}","\u{30aa}\u{30fc}\u{30e0}"],
["\u{330b}","\u{330b}","\u{30ab}\u{30a4}\u{30ea}","\u{30ab}\u{30a4}\u{30ea}"],
["\u{330c}","\u{330c}","\u{30ab}\u{30e9}\u{30c3}\u{30c8}","\u{30ab}\u{30e9}\u{30c3}\u{30c8}"],
["\u{330d}","\u{330d}","\u{30ab}\u{30ed}\u{30ea}\u{30fc}","\u{30ab}\u{30ed}\u{30ea}\u{30fc}"],
["\u{330e}","\u{330e}","\u{30ac}\u{30ed}\u{30f3}","\u{30ab}\u{3099}\u{30ed}\u{30f3}"],
["\u{330f}","\u{330f}","\u{30ac}\u{30f3}\u{30de}","\u{30ab}\u{3099}\u{30f3}\u{30de}"],
["\u{3310}","\u{3310}","\u{30ae}\u{30ac}","\u{30ad}\u{3099}\u{30ab}\u{3099}"],
["\u{3311}","\u{3311}","\u{30ae}\u{30cb}\u{30fc}","\u{30ad}\u{3099}\u{30cb}\u{30fc}"],
["\u{3312}","\u{3312}","\u{30ad}\u{30e5}\u{30ea}\u{30fc}","\u{30ad}\u{30e5}\u{30ea}\u{30fc}"],
["\u{3313}","\u{3313}","\u{30ae}\u{30eb}\u{30c0}\u{30fc}","\u{30ad}\u{3099}\u{30eb}\u{30bf}\u{3099}\u{30fc}"],
["\u{3314}","\u{3314}","\u{30ad}\u{30ed}","\u{30ad}\u{30ed}"],
["\u{3315}","\u{3315}","\u{30ad}\u{30ed}\u{30b0}\u{30e9}\u{30e0}","\u{30ad}\u{30ed}\u{30af}\u{3099}\u{30e9}\u{30e0}"],
["\u{3316}","\u{3316}","\u{30ad}\u{30ed}\u{30e1}\u{30fc}\u{30c8}\u{30eb}","\u{30ad}\u{30ed}\u{30e1}\u{30fc}\u{30c8}\u{30eb}"],
["\u{3317}","\u{3317}","\u{30ad}\u{30ed}\u{30ef}\u{30c3}\u{30c8}","\u{30ad}\u{30ed}\u{30ef}\u{30c3}\u{30c8}"],
["\u{3318}","\u{3318}","\u{30b0}\u{30e9}\u{30e0}","\u{30af}\u{3099}\u{30e9}\u{30e0}"],
["\u{3319}","\u{3319}","\u{30b0}\u{30e9}\u{30e0}\u{30c8}\u{30f3}","\u{30af}\u{3099}\u{30e9}\u{30e0}\u{30c8}\u{30f3}"],
["\u{331a}","\u{331a}","\u{30af}\u{30eb}\u{30bc}\u{30a4}\u{30ed}","\u{30af}\u{30eb}\u{30bb}\u{3099}\u{30a4}\u{30ed}"],
["\u{331b}","\u{331b}","\u{30af}\u{30ed}\u{30fc}\u{30cd}","\u{30af}\u{30ed}\u{30fc}\u{30cd}"],
["\u{331c}","\u{331c}","\u{30b1}\u{30fc}\u{30b9}","\u{30b1}\u{30fc}\u{30b9}"],
["\u{331d}","\u{331d}","\u{30b3}\u{30eb}\u{30ca}","\u{30b3}\u{30eb}\u{30ca}"],
["\u{331e}","\u{331e}","\u{30b3}\u{30fc}\u{30dd}","\u{30b3}\u{30fc}\u{30db}\u{309a}"],
["\u{331f}","\u{331f}","\u{30b5}\u{30a4}\u{30af}\u{30eb}","\u{30b5}\u{30a4}\u{30af}\u{30eb}"],
["\u{3320}","\u{3320}","\u{30b5}\u{30f3}\u{30c1}\u{30fc}\u{30e0}","\u{30b5}\u{30f3}\u{30c1}\u{30fc}\u{30e0}"],
["\u{3321}","\u{3321}","\u{30b7}\u{30ea}\u{30f3}\u{30b0}","\u{30b7}\u{30ea}\u{30f3}\u{30af}\u{3099}"],
["\u{3322}","\u{3322}","\u{30bb}\u{30f3}\u{30c1}","\u{30bb}\u{30f3}\u{30c1}"],
["\u{3323}","\u{3323}","\u{30bb}\u{30f3}\u{30c8}","\u{30bb}\u{30f3}\u{30c8}"],
["\u{3324}","\u{3324}","\u{30c0}\u{30fc}\u{30b9}","\u{30bf}\u{3099}\u{30fc}\u{30b9}"],
["\u{3325}","\u{3325}","\u{30c7}\u{30b7}","\u{30c6}\u{3099}\u{30b7}"],
["\u{3326}","\u{3326}","\u{30c9}\u{30eb}","\u{30c8}\u{3099}\u{30eb}"],
["\u{3327}","\u{3327}","\u{30c8}\u{30f3}","\u{30c8}\u{30f3}"],
["\u{3328}","\u{3328}","\u{30ca}\u{30ce}","\u{30ca}\u{30ce}"],
["\u{3329}","\u{3329}","\u{30ce}\u{30c3}\u{30c8}","\u{30ce}\u{30c3}\u{30c8}"],
["\u{332a}","\u{332a}","\u{30cf}\u{30a4}\u{30c4}","\u{30cf}\u{30a4}\u{30c4}"],
["\u{332b}","\u{332b}","\u{30d1}\u{30fc}\u{30bb}\u{30f3}\u{30c8}","\u{30cf}\u{309a}\u{30fc}\u{30bb}\u{30f3}\u{30c8}"],
["\u{332c}","\u{332c}","\u{30d1}\u{30fc}\u{30c4}","\u{30cf}\u{309a}\u{30fc}\u{30c4}"],
["\u{332d}","\u{332d}","\u{30d0}\u{30fc}\u{30ec}\u{30eb}","\u{30cf}\u{3099}\u{30fc}\u{30ec}\u{30eb}"],
["\u{332e}","\u{332e}","\u{30d4}\u{30a2}\u{30b9}\u{30c8}\u{30eb}","\u{30d2}\u{309a}\u{30a2}\u{30b9}\u{30c8}\u{30eb}"],
["\u{332f}","\u{332f}","\u{30d4}\u{30af}\u{30eb}","\u{30d2}\u{309a}\u{30af}\u{30eb}"],
["\u{3330}","\u{3330}","\u{30d4}\u{30b3}","\u{30d2}\u{309a}\u{30b3}"],
["\u{3331}","\u{3331}","\u{30d3}\u{30eb}","\u{30d2}\u{3099}\u{30eb}"],
["\u{3332}","\u{3332}","\u{30d5}\u{30a1}\u{30e9}\u{30c3}\u{30c9}","\u{30d5}\u{30a1}\u{30e9}\u{30c3}\u{30c8}\u{3099}"],
["\u{3333}","\u{3333}","\u{30d5}\u{30a3}\u{30fc}\u{30c8}","\u{30d5}\u{30a3}\u{30fc}\u{30c8}"],
["\u{3334}","\u{3334}","\u{30d6}\u{30c3}\u{30b7}\u{30a7}\u{30eb}","\u{30d5}\u{3099}\u{30c3}\u{30b7}\u{30a7}\u{30eb}"],
["\u{3335}","\u{3335}","\u{30d5}\u{30e9}\u{30f3}","\u{30d5}\u{30e9}\u{30f3}"],
["\u{3336}","\u{3336}","\u{30d8}\u{30af}\u{30bf}\u{30fc}\u{30eb}","\u{30d8}\u{30af}\u{30bf}\u{30fc}\u{30eb}"],
["\u{3337}","\u{3337}","\u{30da}\u{30bd}","\u{30d8}\u{309a}\u{30bd}"],
["\u{3338}","\u{3338}","\u{30da}\u{30cb}\u{30d2}","\u{30d8}\u{309a}\u{30cb}\u{30d2}"],
["\u{3339}","\u{3339}","\u{30d8}\u{30eb}\u{30c4}","\u{30d8}\u{30eb}\u{30c4}"],
["\u{333a}","\u{333a}","\u{30da}\u{30f3}\u{30b9}","\u{30d8}\u{309a}\u{30f3}\u{30b9}"],
["\u{333b}","\u{333b}","\u{30da}\u{30fc}\u{30b8}","\u{30d8}\u{309a}\u{30fc}\u{30b7}\u{3099}"],
["\u{333c}","\u{333c}","\u{30d9}\u{30fc}\u{30bf}","\u{30d8}\u{3099}\u{30fc}\u{30bf}"],
["\u{333d}","\u{333d}","\u{30dd}\u{30a4}\u{30f3}\u{30c8}","\u{30db}\u{309a}\u{30a4}\u{30f3}\u{30c8}"],
["\u{333e}","\u{333e}","\u{30dc}\u{30eb}\u{30c8}","\u{30db}\u{3099}\u{30eb}\u{30c8}"],
["\u{333f}","\u{333f}","\u{30db}\u{30f3}","\u{30db}\u{30f3}"],
["\u{3340}","\u{3340}","\u{30dd}\u{30f3}\u{30c9}","\u{30db}\u{309a}\u{30f3}\u{30c8}\u{3099}"],
["\u{3341}","\u{3341}","\u{30db}\u{30fc}\u{30eb}","\u{30db}\u{30fc}\u{30eb}"],
["\u{3342}","\u{3342}","\u{30db}\u{30fc}\u{30f3}","\u{30db}\u{30fc}\u{30f3}"],
["\u{3343}","\u{3343}","\u{30de}\u{30a4}\u{30af}\u{30ed}","\u{30de}\u{30a4}\u{30af}\u{30ed}"],
["\u{3344}","\u{3344}","\u{30de}\u{30a4}\u{30eb}","\u{30de}\u{30a4}\u{30eb}"],
["\u{3345}","\u{3345}","\u{30de}\u{30c3}\u{30cf}","\u{30de}\u{30c3}\u{30cf}"],
["\u{3346}","\u{3346}","\u{30de}\u{30eb}\u{30af}","\u{30de}\u{30eb}\u{30af}"],
["\u{3347}","\u{3347}","\u{30de}\u{30f3}\u{30b7}\u{30e7}\u{30f3}","\u{30de}\u{30f3}\u{30b7}\u{30e7}\u{30f3}"],
["\u{3348}","\u{3348}","\u{30df}\u{30af}\u{30ed}\u{30f3}","\u{30df}\u{30af}\u{30ed}\u{30f3}"],
["\u{3349}","\u{3349}","\u{30df}\u{30ea}","\u{30df}\u{30ea}"],
["\u{334a}","\u{334a}","\u{30df}\u{30ea}\u{30d0}\u{30fc}\u{30eb}","\u{30df}\u{30ea}\u{30cf}\u{3099}\u{30fc}\u{30eb}"],
["\u{334b}","\u{334b}","\u{30e1}\u{30ac}","\u{30e1}\u{30ab}\u{3099}"],
["\u{334c}","\u{334c}","\u{30e1}\u{30ac}\u{30c8}\u{30f3}","\u{30e1}\u{30ab}\u{3099}\u{30c8}\u{30f3}"],
["\u{334d}","\u{334d}","\u{30e1}\u{30fc}\u{30c8}\u{30eb}","\u{30e1}\u{30fc}\u{30c8}\u{30eb}"],
["\u{334e}","\u{334e}","\u{30e4}\u{30fc}\u{30c9}","\u{30e4}\u{30fc}\u{30c8}\u{3099}"],
["\u{334f}","\u{334f}","\u{30e4}\u{30fc}\u{30eb}","\u{30e4}\u{30fc}\u{30eb}"],
["\u{3350}","\u{3350}","\u{30e6}\u{30a2}\u{30f3}","\u{30e6}\u{30a2}\u{30f3}"],
["\u{3351}","\u{3351}","\u{30ea}\u{30c3}\u{30c8}\u{30eb}","\u{30ea}\u{30c3}\u{30c8}\u{30eb}"],
["\u{3352}","\u{3352}","\u{30ea}\u{30e9}","\u{30ea}\u{30e9}"],
["\u{3353}","\u{3353}","\u{30eb}\u{30d4}\u{30fc}","\u{30eb}\u{30d2}\u{309a}\u{30fc}"],
["\u{3354}","\u{3354}","\u{30eb}\u{30fc}\u{30d6}\u{30eb}","\u{30eb}\u{30fc}\u{30d5}\u{3099}\u{30eb}"],
["\u{3355}","\u{3355}","\u{30ec}\u{30e0}","\u{30ec}\u{30e0}"],
["\u{3356}","\u{3356}","\u{30ec}\u{30f3}\u{30c8}\u{30b2}\u{30f3}","\u{30ec}\u{30f3}\u{30c8}\u{30b1}\u{3099}\u{30f3}"],
["\u{3357}","\u{3357}","\u{30ef}\u{30c3}\u{30c8}","\u{30ef}\u{30c3}\u{30c8}"],
["\u{3358}","\u{3358}","\u{30}\u{70b9}","\u{30}\u{70b9}"],
["\u{3359}","\u{3359}","\u{31}\u{70b9}","\u{31}\u{70b9}"],
["\u{335a}","\u{335a}","\u{32}\u{70b9}","\u{32}\u{70b9}"],
["\u{335b}","\u{335b}","\u{33}\u{70b9}","\u{33}\u{70b9}"],
["\u{335c}","\u{335c}","\u{34}\u{70b9}","\u{34}\u{70b9}"],
["\u{335d}","\u{335d}","\u{35}\u{70b9}","\u{35}\u{70b9}"],
["\u{335e}","\u{335e}","\u{36}\u{70b9}","\u{36}\u{70b9}"],
["\u{335f}","\u{335f}","\u{37}\u{70b9}","\u{37}\u{70b9}"],
["\u{3360}","\u{3360}","\u{38}\u{70b9}","\u{38}\u{70b9}"],
["\u{3361}","\u{3361}","\u{39}\u{70b9}","\u{39}\u{70b9}"],
["\u{3362}","\u{3362}","\u{31}\u{30}\u{70b9}","\u{31}\u{30}\u{70b9}"],
["\u{3363}","\u{3363}","\u{31}\u{31}\u{70b9}","\u{31}\u{31}\u{70b9}"],
["\u{3364}","\u{3364}","\u{31}\u{32}\u{70b9}","\u{31}\u{32}\u{70b9}"],
["\u{3365}","\u{3365}","\u{31}\u{33}\u{70b9}","\u{31}\u{33}\u{70b9}"],
["\u{3366}","\u{3366}","\u{31}\u{34}\u{70b9}","\u{31}\u{34}\u{70b9}"],
["\u{3367}","\u{3367}","\u{31}\u{35}\u{70b9}","\u{31}\u{35}\u{70b9}"],
["\u{3368}","\u{3368}","\u{31}\u{36}\u{70b9}","\u{31}\u{36}\u{70b9}"],
["\u{3369}","\u{3369}","\u{31}\u{37}\u{70b9}","\u{31}\u{37}\u{70b9}"],
["\u{336a}","\u{336a}","\u{31}\u{38}\u{70b9}","\u{31}\u{38}\u{70b9}"],
["\u{336b}","\u{336b}","\u{31}\u{39}\u{70b9}","\u{31}\u{39}\u{70b9}"],
["\u{336c}","\u{336c}","\u{32}\u{30}\u{70b9}","\u{32}\u{30}\u{70b9}"],
["\u{336d}","\u{336d}","\u{32}\u{31}\u{70b9}","\u{32}\u{31}\u{70b9}"],
["\u{336e}","\u{336e}","\u{32}\u{32}\u{70b9}","\u{32}\u{32}\u{70b9}"],
["\u{336f}","\u{336f}","\u{32}\u{33}\u{70b9}","\u{32}\u{33}\u{70b9}"],
["\u{3370}","\u{3370}","\u{32}\u{34}\u{70b9}","\u{32}\u{34}\u{70b9}"],
["\u{3371}","\u{3371}","\u{68}\u{50}\u{61}","\u{68}\u{50}\u{61}"],
["\u{3372}","\u{3372}","\u{64}\u{61}","\u{64}\u{61}"],
["\u{3373}","\u{3373}","\u{41}\u{55}","\u{41}\u{55}"],
["\u{3374}","\u{3374}","\u{62}\u{61}\u{72}","\u{62}\u{61}\u{72}"],
["\u{3375}","\u{3375}","\u{6f}\u{56}","\u{6f}\u{56}"],
["\u{3376}","\u{3376}","\u{70}\u{63}","\u{70}\u{63}"],
["\u{3377}","\u{3377}","\u{64}\u{6d}","\u{64}\u{6d}"],
["\u{3378}","\u{3378}","\u{64}\u{6d}\u{32}","\u{64}\u{6d}\u{32}"],
["\u{3379}","\u{3379}","\u{64}\u{6d}\u{33}","\u{64}\u{6d}\u{33}"],
["\u{337a}","\u{337a}","\u{49}\u{55}","\u{49}\u{55}"],
["\u{337b}","\u{337b}","\u{5e73}\u{6210}","\u{5e73}\u{6210}"],
["\u{337c}","\u{337c}","\u{662d}\u{548c}","\u{662d}\u{548c}"],
["\u{337d}","\u{337d}","\u{5927}\u{6b63}","\u{5927}\u{6b63}"],
["\u{337e}","\u{337e}","\u{660e}\u{6cbb}","\u{660e}\u{6cbb}"],
["\u{337f}","\u{337f}","\u{682a}\u{5f0f}\u{4f1a}\u{793e}","\u{682a}\u{5f0f}\u{4f1a}\u{793e}"],
["\u{3380}","\u{3380}","\u{70}\u{41}","\u{70}\u{41}"],
["\u{3381}","\u{3381}","\u{6e}\u{41}","\u{6e}\u{41}"],
["\u{3382}","\u{3382}","\u{3bc}\u{41}","\u{3bc}\u{41}"],
["\u{3383}","\u{3383}","\u{6d}\u{41}","\u{6d}\u{41}"],
["\u{3384}","\u{3384}","\u{6b}\u{41}","\u{6b}\u{41}"],
["\u{3385}","\u{3385}","\u{4b}\u{42}","\u{4b}\u{42}"],
["\u{3386}","\u{3386}","\u{4d}\u{42}","\u{4d}\u{42}"],
["\u{3387}","\u{3387}","\u{47}\u{42}","\u{47}\u{42}"],
["\u{3388}","\u{3388}","\u{63}\u{61}\u{6c}","\u{63}\u{61}\u{6c}"],
["\u{3389}","\u{3389}","\u{6b}\u{63}\u{61}\u{6c}","\u{6b}\u{63}\u{61}\u{6c}"],
["\u{338a}","\u{338a}","\u{70}\u{46}","\u{70}\u{46}"],
["\u{338b}","\u{338b}","\u{6e}\u{46}","\u{6e}\u{46}"],
["\u{338c}","\u{338c}","\u{3bc}\u{46}","\u{3bc}\u{46}"],
["\u{338d}","\u{338d}","\u{3bc}\u{67}","\u{3bc}\u{67}"],
["\u{338e}","\u{338e}","\u{6d}\u{67}","\u{6d}\u{67}"],
["\u{338f}","\u{338f}","\u{6b}\u{67}","\u{6b}\u{67}"],
["\u{3390}","\u{3390}","\u{48}\u{7a}","\u{48}\u{7a}"],
["\u{3391}","\u{3391}","\u{6b}\u{48}\u{7a}","\u{6b}\u{48}\u{7a}"],
["\u{3392}","\u{3392}","\u{4d}\u{48}\u{7a}","\u{4d}\u{48}\u{7a}"],
["\u{3393}","\u{3393}","\u{47}\u{48}\u{7a}","\u{47}\u{48}\u{7a}"],
["\u{3394}","\u{3394}","\u{54}\u{48}\u{7a}","\u{54}\u{48}\u{7a}"],
["\u{3395}","\u{3395}","\u{3bc}\u{6c}","\u{3bc}\u{6c}"],
["\u{3396}","\u{3396}","\u{6d}\u{6c}","\u{6d}\u{6c}"],
["\u{3397}","\u{3397}","\u{64}\u{6c}","\u{64}\u{6c}"],
["\u{3398}","\u{3398}","\u{6b}\u{6c}","\u{6b}\u{6c}"],
["\u{3399}","\u{3399}","\u{66}\u{6d}","\u{66}\u{6d}"],
["\u{339a}","\u{339a}","\u{6e}\u{6d}","\u{6e}\u{6d}"],
["\u{339b}","\u{339b}","\u{3bc}\u{6d}","\u{3bc}\u{6d}"],
["\u{339c}","\u{339c}","\u{6d}\u{6d}","\u{6d}\u{6d}"],
["\u{339d}","\u{339d}","\u{63}\u{6d}","\u{63}\u{6d}"],
["\u{339e}","\u{339e}","\u{6b}\u{6d}","\u{6b}\u{6d}"],
["\u{339f}","\u{339f}","\u{6d}\u{6d}\u{32}","\u{6d}\u{6d}\u{32}"],
["\u{33a0}","\u{33a0}","\u{63}\u{6d}\u{32}","\u{63}\u{6d}\u{32}"],
["\u{33a1}","\u{33a1}","\u{6d}\u{32}","\u{6d}\u{32}"],
["\u{33a2}","\u{33a2}","\u{6b}\u{6d}\u{32}","\u{6b}\u{6d}\u{32}"],
["\u{33a3}","\u{33a3}","\u{6d}\u{6d}\u{33}","\u{6d}\u{6d}\u{33}"],
["\u{33a4}","\u{33a4}","\u{63}\u{6d}\u{33}","\u{63}\u{6d}\u{33}"],
["\u{33a5}","\u{33a5}","\u{6d}\u{33}","\u{6d}\u{33}"],
["\u{33a6}","\u{33a6}","\u{6b}\u{6d}\u{33}","\u{6b}\u{6d}\u{33}"],
["\u{33a7}","\u{33a7}","\u{6d}\u{2215}\u{73}","\u{6d}\u{2215}\u{73}"],
["\u{33a8}","\u{33a8}","\u{6d}\u{2215}\u{73}\u{32}","\u{6d}\u{2215}\u{73}\u{32}"],
["\u{33a9}","\u{33a9}","\u{50}\u{61}","\u{50}\u{61}"],
["\u{33aa}","\u{33aa}","\u{6b}\u{50}\u{61}","\u{6b}\u{50}\u{61}"],
["\u{33ab}","\u{33ab}","\u{4d}\u{50}\u{61}","\u{4d}\u{50}\u{61}"],
["\u{33ac}","\u{33ac}","\u{47}\u{50}\u{61}","\u{47}\u{50}\u{61}"],
["\u{33ad}","\u{33ad}","\u{72}\u{61}\u{64}","\u{72}\u{61}\u{64}"],
["\u{33ae}","\u{33ae}","\u{72}\u{61}\u{64}\u{2215}\u{73}","\u{72}\u{61}\u{64}\u{2215}\u{73}"],
["\u{33af}","\u{33af}","\u{72}\u{61}\u{64}\u{2215}\u{73}\u{32}","\u{72}\u{61}\u{64}\u{2215}\u{73}\u{32}"],
["\u{33b0}","\u{33b0}","\u{70}\u{73}","\u{70}\u{73}"],
["\u{33b1}","\u{33b1}","\u{6e}\u{73}","\u{6e}\u{73}"],
["\u{33b2}","\u{33b2}","\u{3bc}\u{73}","\u{3bc}\u{73}"],
["\u{33b3}","\u{33b3}","\u{6d}\u{73}","\u{6d}\u{73}"],
["\u{33b4}","\u{33b4}","\u{70}\u{56}","\u{70}\u{56}"],
["\u{33b5}","\u{33b5}","\u{6e}\u{56}","\u{6e}\u{56}"],
["\u{33b6}","\u{33b6}","\u{3bc}\u{56}","\u{3bc}\u{56}"],
["\u{33b7}","\u{33b7}","\u{6d}\u{56}","\u{6d}\u{56}"],
["\u{33b8}","\u{33b8}","\u{6b}\u{56}","\u{6b}\u{56}"],
["\u{33b9}","\u{33b9}","\u{4d}\u{56}","\u{4d}\u{56}"],
["\u{33ba}","\u{33ba}","\u{70}\u{57}","\u{70}\u{57}"],
["\u{33bb}","\u{33bb}","\u{6e}\u{57}","\u{6e}\u{57}"],
["\u{33bc}","\u{33bc}","\u{3bc}\u{57}","\u{3bc}\u{57}"],
["\u{33bd}","\u{33bd}","\u{6d}\u{57}","\u{6d}\u{57}"],
["\u{33be}","\u{33be}","\u{6b}\u{57}","\u{6b}\u{57}"],
["\u{33bf}","\u{33bf}","\u{4d}\u{57}","\u{4d}\u{57}"],
["\u{33c0}","\u{33c0}","\u{6b}\u{3a9}","\u{6b}\u{3a9}"],
["\u{33c1}","\u{33c1}","\u{4d}\u{3a9}","\u{4d}\u{3a9}"],
["\u{33c2}","\u{33c2}","\u{61}\u{2e}\u{6d}\u{2e}","\u{61}\u{2e}\u{6d}\u{2e}"],
["\u{33c3}","\u{33c3}","\u{42}\u{71}","\u{42}\u{71}"],
["\u{33c4}","\u{33c4}","\u{63}\u{63}","\u{63}\u{63}"],
["\u{33c5}","\u{33c5}","\u{63}\u{64}","\u{63}\u{64}"],
["\u{33c6}","\u{33c6}","\u{43}\u{2215}\u{6b}\u{67}","\u{43}\u{2215}\u{6b}\u{67}"],
["\u{33c7}","\u{33c7}","\u{43}\u{6f}\u{2e}","\u{43}\u{6f}\u{2e}"],
["\u{33c8}","\u{33c8}","\u{64}\u{42}","\u{64}\u{42}"],
["\u{33c9}","\u{33c9}","\u{47}\u{79}","\u{47}\u{79}"],
["\u{33ca}","\u{33ca}","\u{68}\u{61}","\u{68}\u{61}"],
["\u{33cb}","\u{33cb}","\u{48}\u{50}","\u{48}\u{50}"],
["\u{33cc}","\u{33cc}","\u{69}\u{6e}","\u{69}\u{6e}"],
["\u{33cd}","\u{33cd}","\u{4b}\u{4b}","\u{4b}\u{4b}"],
["\u{33ce}","\u{33ce}","\u{4b}\u{4d}","\u{4b}\u{4d}"],
["\u{33cf}","\u{33cf}","\u{6b}\u{74}","\u{6b}\u{74}"],
["\u{33d0}","\u{33d0}","\u{6c}\u{6d}","\u{6c}\u{6d}"],
["\u{33d1}","\u{33d1}","\u{6c}\u{6e}","\u{6c}\u{6e}"],
["\u{33d2}","\u{33d2}","\u{6c}\u{6f}\u{67}","\u{6c}\u{6f}\u{67}"],
["\u{33d3}","\u{33d3}","\u{6c}\u{78}","\u{6c}\u{78}"],
["\u{33d4}","\u{33d4}","\u{6d}\u{62}","\u{6d}\u{62}"],
["\u{33d5}","\u{33d5}","\u{6d}\u{69}\u{6c}","\u{6d}\u{69}\u{6c}"],
["\u{33d6}","\u{33d6}","\u{6d}\u{6f}\u{6c}","\u{6d}\u{6f}\u{6c}"],
["\u{33d7}","\u{33d7}","\u{50}\u{48}","\u{50}\u{48}"],
["\u{33d8}","\u{33d8}","\u{70}\u{2e}\u{6d}\u{2e}","\u{70}\u{2e}\u{6d}\u{2e}"],
["\u{33d9}","\u{33d9}","\u{50}\u{50}\u{4d}","\u{50}\u{50}\u{4d}"],
["\u{33da}","\u{33da}","\u{50}\u{52}","\u{50}\u{52}"],
["\u{33db}","\u{33db}","\u{73}\u{72}","\u{73}\u{72}"],
["\u{33dc}","\u{33dc}","\u{53}\u{76}","\u{53}\u{76}"],
["\u{33dd}","\u{33dd}","\u{57}\u{62}","\u{57}\u{62}"],
["\u{33de}","\u{33de}","\u{56}\u{2215}\u{6d}","\u{56}\u{2215}\u{6d}"],
["\u{33df}","\u{33df}","\u{41}\u{2215}\u{6d}","\u{41}\u{2215}\u{6d}"],
["\u{33e0}","\u{33e0}","\u{31}\u{65e5}","\u{31}\u{65e5}"],
["\u{33e1}","\u{33e1}","\u{32}\u{65e5}","\u{32}\u{65e5}"],
["\u{33e2}","\u{33e2}","\u{33}\u{65e5}","\u{33}\u{65e5}"],
["\u{33e3}","\u{33e3}","\u{34}\u{65e5}","\u{34}\u{65e5}"],
["\u{33e4}","\u{33e4}","\u{35}\u{65e5}","\u{35}\u{65e5}"],
["\u{33e5}","\u{33e5}","\u{36}\u{65e5}","\u{36}\u{65e5}"],
["\u{33e6}","\u{33e6}","\u{37}\u{65e5}","\u{37}\u{65e5}"],
["\u{33e7}","\u{33e7}","\u{38}\u{65e5}","\u{38}\u{65e5}"],
["\u{33e8}","\u{33e8}","\u{39}\u{65e5}","\u{39}\u{65e5}"],
["\u{33e9}","\u{33e9}","\u{31}\u{30}\u{65e5}","\u{31}\u{30}\u{65e5}"],
["\u{33ea}","\u{33ea}","\u{31}\u{31}\u{65e5}","\u{31}\u{31}\u{65e5}"],
["\u{33eb}","\u{33eb}","\u{31}\u{32}\u{65e5}","\u{31}\u{32}\u{65e5}"],
["\u{33ec}","\u{33ec}","\u{31}\u{33}\u{65e5}","\u{31}\u{33}\u{65e5}"],
["\u{33ed}","\u{33ed}","\u{31}\u{34}\u{65e5}","\u{31}\u{34}\u{65e5}"],
["\u{33ee}","\u{33ee}","\u{31}\u{35}\u{65e5}","\u{31}\u{35}\u{65e5}"],
["\u{33ef}","\u{33ef}","\u{31}\u{36}\u{65e5}","\u{31}\u{36}\u{65e5}"],
["\u{33f0}","\u{33f0}","\u{31}\u{37}\u{65e5}","\u{31}\u{37}\u{65e5}"],
["\u{33f1}","\u{33f1}","\u{31}\u{38}\u{65e5}","\u{31}\u{38}\u{65e5}"],
["\u{33f2}","\u{33f2}","\u{31}\u{39}\u{65e5}","\u{31}\u{39}\u{65e5}"],
["\u{33f3}","\u{33f3}","\u{32}\u{30}\u{65e5}","\u{32}\u{30}\u{65e5}"],
["\u{33f4}","\u{33f4}","\u{32}\u{31}\u{65e5}","\u{32}\u{31}\u{65e5}"],
["\u{33f5}","\u{33f5}","\u{32}\u{32}\u{65e5}","\u{32}\u{32}\u{65e5}"],
["\u{33f6}","\u{33f6}","\u{32}\u{33}\u{65e5}","\u{32}\u{33}\u{65e5}"],
["\u{33f7}","\u{33f7}","\u{32}\u{34}\u{65e5}","\u{32}\u{34}\u{65e5}"],
["\u{33f8}","\u{33f8}","\u{32}\u{35}\u{65e5}","\u{32}\u{35}\u{65e5}"],
["\u{33f9}","\u{33f9}","\u{32}\u{36}\u{65e5}","\u{32}\u{36}\u{65e5}"],
["\u{33fa}","\u{33fa}","\u{32}\u{37}\u{65e5}","\u{32}\u{37}\u{65e5}"],
["\u{33fb}","\u{33fb}","\u{32}\u{38}\u{65e5}","\u{32}\u{38}\u{65e5}"],
["\u{33fc}","\u{33fc}","\u{32}\u{39}\u{65e5}","\u{32}\u{39}\u{65e5}"],
["\u{33fd}","\u{33fd}","\u{33}\u{30}\u{65e5}","\u{33}\u{30}\u{65e5}"],
["\u{33fe}","\u{33fe}","\u{33}\u{31}\u{65e5}","\u{33}\u{31}\u{65e5}"],
["\u{33ff}","\u{33ff}","\u{67}\u{61}\u{6c}","\u{67}\u{61}\u{6c}"],
    ]),
    (0x1f00, 0x1ffe, &[
["\u{1f00}","\u{3b1}\u{313}","\u{1f00}","\u{3b1}\u{313}"],
["\u{1f01}","\u{3b1}\u{314}","\u{1f01}","\u{3b1}\u{314}"],
["\u{1f02}","\u{3b1}\u{313}\u{300}","\u{1f02}","\u{3b1}\u{313}\u{300}"],
["\u{1f03}","\u{3b1}\u{314}\u{300}","\u{1f03}","\u{3b1}\u{314}\u{300}"],
["\u{1f04}","\u{3b1}\u{313}\u{301}","\u{1f04}","\u{3b1}\u{313}\u{301}"],
["\u{1f05}","\u{3b1}\u{314}\u{301}","\u{1f05}","\u{3b1}\u{314}\u{301}"],
["\u{1f06}","\u{3b1}\u{313}\u{342}","\u{1f06}","\u{3b1}\u{313}\u{342}"],
["\u{1f07}","\u{3b1}\u{314}\u{342}","\u{1f07}","\u{3b1}\u{314}\u{342}"],
["\u{1f08}","\u{391}\u{313}","\u{1f08}","\u{391}\u{313}"],
["\u{1f09}","\u{391}\u{314}","\u{1f09}","\u{391}\u{314}"],
["\u{1f0a}","\u{391}\u{313}\u{300}","\u{1f0a}","\u{391}\u{313}\u{300}"],
["\u{1f0b}","\u{391}\u{314}\u{300}","\u{1f0b}","\u{391}\u{314}\u{300}"],
["\u{1f0c}","\u{391}\u{313}\u{301}","\u{1f0c}","\u{391}\u{313}\u{301}"],
["\u{1f0d}","\u{391}\u{314}\u{301}","\u{1f0d}","\u{391}\u{314}\u{301}"],
["\u{1f0e}","\u{391}\u{313}\u{342}","\u{1f0e}","\u{391}\u{313}\u{342}"],
["\u{1f0f}","\u{391}\u{314}\u{342}","\u{1f0f}","\u{391}\u{314}\u{342}"],
["\u{1f10}","\u{3b5}\u{313}","\u{1f10}","\u{3b5}\u{313}"],
["\u{1f11}","\u{3b5}\u{314}","\u{1f11}","\u{3b5}\u{314}"],
["\u{1f12}","\u{3b5}\u{313}\u{300}","\u{1f12}","\u{3b5}\u{313}\u{300}"],
["\u{1f13}","\u{3b5}\u{314}\u{300}","\u{1f13}","\u{3b5}\u{314}\u{300}"],
["\u{1f14}","\u{3b5}\u{313}\u{301}","\u{1f14}","\u{3b5}\u{313}\u{301}"],
["\u{1f15}","\u{3b5}\u{314}\u{301}","\u{1f15}","\u{3b5}\u{314}\u{301}"],
["","","",""],
["","","",""],
["\u{1f18}","\u{395}\u{313}","\u{1f18}","\u{395}\u{313}"],
["\u{1f19}","\u{395}\u{314}","\u{1f19}","\u{395}\u{314}"],
["\u{1f1a}","\u{395}\u{313}\u{300}","\u{1f1a}","\u{395}\u{313}\u{300}"],
["\u{1f1b}","\u{395}\u{314}\u{300}","\u{1f1b}","\u{395}\u{314}\u{300}"],
["\u{1f1c}","\u{395}\u{313}\u{301}","\u{1f1c}","\u{395}\u{313}\u{301}"],
["\u{1f1d}","\u{395}\u{314}\u{301}","\u{1f1d}","\u{395}\u{314}\u{301}"],
["","","",""],
["","","",""],
["\u{1f20}","\u{3b7}\u{313}","\u{1f20}","\u{3b7}\u{313}"],
["\u{1f21}","\u{3b7}\u{314}","\u{1f21}","\u{3b7}\u{314}"],
["\u{1f22}","\u{3b7}\u{313}\u{300}","\u{1f22}","\u{3b7}\u{313}\u{300}"],
["\u{1f23}","\u{3b7}\u{314}\u{300}","\u{1f23}","\u{3b7}\u{314}\u{300}"],
["\u{1f24}","\u{3b7}\u{313}\u{301}","\u{1f24}","\u{3b7}\u{313}\u{301}"],
["\u{1f25}","\u{3b7}\u{314}\u{301}","\u{1f25}","\u{3b7}\u{314}\u{301}"],
["\u{1f26}","\u{3b7}\u{313}\u{342}","\u{1f26}","\u{3b7}\u{313}\u{342}"],
["\u{1f27}","\u{3b7}\u{314}\u{342}","\u{1f27}","\u{3b7}\u{314}\u{342}"],
["\u{1f28}","\u{397}\u{313}","\u{1f28}","\u{397}\u{313}"],
["\u{1f29}","\u{397}\u{314}","\u{1f29}","\u{397}\u{314}"],
["\u{1f2a}","\u{397}\u{313}\u{300}","\u{1f2a}","\u{397}\u{313}\u{300}"],
["\u{1f2b}","\u{397}\u{314}\u{300}","\u{1f2b}","\u{397}\u{314}\u{300}"],
["\u{1f2c}","\u{397}\u{313}\u{301}","\u{1f2c}","\u{397}\u{313}\u{301}"],
["\u{1f2d}","\u{397}\u{314}\u{301}","\u{1f2d}","\u{397}\u{314}\u{301}"],
["\u{1f2e}","\u{397}\u{313}\u{342}","\u{1f2e}","\u{397}\u{313}\u{342}"],
["\u{1f2f}","\u{397}\u{314}\u{342}","\u{1f2f}","\u{397}\u{314}\u{342}"],
["\u{1f30}","\u{3b9}\u{313}","\u{1f30}","\u{3b9}\u{313}"],
["\u{1f31}","\u{3b9}\u{314}","\u{1f31}","\u{3b9}\u{314}"],
["\u{1f32}","\u{3b9}\u{313}\u{300}","\u{1f32}","\u{3b9}\u{313}\u{300}"],
["\u{1f33}","\u{3b9}\u{314}\u{300}","\u{1f33}","\u{3b9}\u{314}\u{300}"],
["\u{1f34}","\u{3b9}\u{313}\u{301}","\u{1f34}","\u{3b9}\u{313}\u{301}"],
["\u{1f35}","\u{3b9}\u{314}\u{301}","\u{1f35}","\u{3b9}\u{314}\u{301}"],
["\u{1f36}","\u{3b9}\u{313}\u{342}","\u{1f36}","\u{3b9}\u{313}\u{342}"],
["\u{1f37}","\u{3b9}\u{314}\u{342}","\u{1f37}","\u{3b9}\u{314}\u{342}"],
["\u{1f38}","\u{399}\u{313}","\u{1f38}","\u{399}\u{313}"],
["\u{1f39}","\u{399}\u{314}","\u{1f39}","\u{399}\u{314}"],
["\u{1f3a}","\u{399}\u{313}\u{300}","\u{1f3a}","\u{399}\u{313}\u{300}"],
["\u{1f3b}","\u{399}\u{314}\u{300}","\u{1f3b}","\u{399}\u{314}\u{300}"],
["\u{1f3c}","\u{399}\u{313}\u{301}","\u{1f3c}","\u{399}\u{313}\u{301}"],
["\u{1f3d}","\u{399}\u{314}\u{301}","\u{1f3d}","\u{399}\u{314}\u{301}"],
["\u{1f3e}","\u{399}\u{313}\u{342}","\u{1f3e}","\u{399}\u{313}\u{342}"],
["\u{1f3f}","\u{399}\u{314}\u{342}","\u{1f3f}","\u{399}\u{314}\u{342}"],
["\u{1f40}","\u{3bf}\u{313}","\u{1f40}","\u{3bf}\u{313}"],
["\u{1f41}","\u{3bf}\u{314}","\u{1f41}","\u{3bf}\u{314}"],
["\u{1f42}","\u{3bf}\u{313}\u{300}","\u{1f42}","\u{3bf}\u{313}\u{300}"],
["\u{1f43}","\u{3bf}\u{314}\u{300}","\u{1f43}","\u{3bf}\u{314}\u{300}"],
["\u{1f44}","\u{3bf}\u{313}\u{301}","\u{1f44}","\u{3bf}\u{313}\u{301}"],
["\u{1f45}","\u{3bf}\u{314}\u{301}","\u{1f45}","\u{3bf}\u{314}\u{301}"],
["","","",""],
["","","",""],
["\u{1f48}","\u{39f}\u{313}","\u{1f48}","\u{39f}\u{313}"],
["\u{1f49}","\u{39f}\u{314}","\u{1f49}","\u{39f}\u{314}"],
["\u{1f4a}","\u{39f}\u{313}\u{300}","\u{1f4a}","\u{39f}\u{313}\u{300}"],
["\u{1f4b}","\u{39f}\u{314}\u{300}","\u{1f4b}","\u{39f}\u{314}\u{300}"],
["\u{1f4c}","\u{39f}\u{313}\u{301}","\u{1f4c}","\u{39f}\u{313}\u{301}"],
["\u{1f4d}","\u{39f}\u{314}\u{301}","\u{1f4d}","\u{39f}\u{314}\u{301}"],
["","","",""],
["","","",""],
["\u{1f50}","\u{3c5}\u{313}","\u{1f50}","\u{3c5}\u{313}"],
["\u{1f51}","\u{3c5}\u{314}","\u{1f51}","\u{3c5}\u{314}"],
["\u{1f52}","\u{3c5}\u{313}\u{300}","\u{1f52}","\u{3c5}\u{313}\u{300}"],
["\u{1f53}","\u{3c5}\u{314}\u{300}","\u{1f53}","\u{3c5}\u{314}\u{300}"],
["\u{1f54}","\u{3c5}\u{313}\u{301}","\u{1f54}","\u{3c5}\u{313}\u{301}"],
["\u{1f55}","\u{3c5}\u{314}\u{301}","\u{1f55}","\u{3c5}\u{314}\u{301}"],
["\u{1f56}","\u{3c5}\u{313}\u{342}","\u{1f56}","\u{3c5}\u{313}\u{342}"],
["\u{1f57}","\u{3c5}\u{314}\u{342}","\u{1f57}","\u{3c5}\u{314}\u{342}"],
["","","",""],
["\u{1f59}","\u{3a5}\u{314}","\u{1f59}","\u{3a5}\u{314}"],
["","","",""],
["\u{1f5b}","\u{3a5}\u{314}\u{300}","\u{1f5b}","\u{3a5}\u{314}\u{300}"],
["","","",""],
["\u{1f5d}","\u{3a5}\u{314}\u{301}","\u{1f5d}","\u{3a5}\u{314}\u{301}"],
["","","",""],
["\u{1f5f}","\u{3a5}\u{314}\u{342}","\u{1f5f}","\u{3a5}\u{314}\u{342}"],
["\u{1f60}","\u{3c9}\u{313}","\u{1f60}","\u{3c9}\u{313}"],
["\u{1f61}","\u{3c9}\u{314}","\u{1f61}","\u{3c9}\u{314}"],
["\u{1f62}","\u{3c9}\u{313}\u{300}","\u{1f62}","\u{3c9}\u{313}\u{300}"],
["\u{1f63}","\u{3c9}\u{314}\u{300}","\u{1f63}","\u{3c9}\u{314}\u{300}"],
["\u{1f64}","\u{3c9}\u{313}\u{301}","\u{1f64}","\u{3c9}\u{313}\u{301}"],
["\u{1f65}","\u{3c9}\u{314}\u{301}","\u{1f65}","\u{3c9}\u{314}\u{301}"],
["\u{1f66}","\u{3c9}\u{313}\u{342}","\u{1f66}","\u{3c9}\u{313}\u{342}"],
["\u{1f67}","\u{3c9}\u{314}\u{342}","\u{1f67}","\u{3c9}\u{314}\u{342}"],
["\u{1f68}","\u{3a9}\u{313}","\u{1f68}","\u{3a9}\u{313}"],
["\u{1f69}","\u{3a9}\u{314}","\u{1f69}","\u{3a9}\u{314}"],
["\u{1f6a}","\u{3a9}\u{313}\u{300}","\u{1f6a}","\u{3a9}\u{313}\u{300}"],
["\u{1f6b}","\u{3a9}\u{314}\u{300}","\u{1f6b}","\u{3a9}\u{314}\u{300}"],
["\u{1f6c}","\u{3a9}\u{313}\u{301}","\u{1f6c}","\u{3a9}\u{313}\u{301}"],
["\u{1f6d}","\u{3a9}\u{314}\u{301}","\u{1f6d}","\u{3a9}\u{314}\u{301}"],
["\u{1f6e}","\u{3a9}\u{313}\u{342}","\u{1f6e}","\u{3a9}\u{313}\u{342}"],
["\u{1f6f}","\u{3a9}\u{314}\u{342}","\u{1f6f}","\u{3a9}\u{314}\u{342}"],
["\u{1f70}","\u{3b1}\u{300}","\u{1f70}","\u{3b1}\u{300}"],
["\u{3ac}","\u{3b1}\u{301}","\u{3ac}","\u{3b1}\u{301}"],
["\u{1f72}","\u{3b5}\u{300}","\u{1f72}","\u{3b5}\u{300}"],
["\u{3ad}","\u{3b5}\u{301}","\u{3ad}","\u{3b5}\u{301}"],
["\u{1f74}","\u{3b7}\u{300}","\u{1f74}","\u{3b7}\u{300}"],
["\u{3ae}","\u{3b7}\u{301}","\u{3ae}","\u{3b7}\u{301}"],
["\u{1f76}","\u{3b9}\u{300}","\u{1f76}","\u{3b9}\u{300}"],
["\u{3af}","\u{3b9}\u{301}","\u{3af}","\u{3b9}\u{301}"],
["\u{1f78}","\u{3bf}\u{300}","\u{1f78}","\u{3bf}\u{300}"],
["\u{3cc}","\u{3bf}\u{301}","\u{3cc}","\u{3bf}\u{301}"],
["\u{1f7a}","\u{3c5}\u{300}","\u{1f7a}","\u{3c5}\u{300}"],
["\u{3cd}","\u{3c5}\u{301}","\u{3cd}","\u{3c5}\u{301}"],
["\u{1f7c}","\u{3c9}\u{300}","\u{1f7c}","\u{3c9}\u{300}"],
["\u{3ce}","\u{3c9}\u{301}","\u{3ce}","\u{3c9}\u{301}"],
["","","",""],
["","","",""],
["\u{1f80}","\u{3b1}\u{313}\u{345}","\u{1f80}","\u{3b1}\u{313}\u{345}"],
["\u{1f81}","\u{3b1}\u{314}\u{345}","\u{1f81}","\u{3b1}\u{314}\u{345}"],
["\u{1f82}","\u{3b1}\u{313}\u{300}\u{345}","\u{1f82}","\u{3b1}\u{313}\u{300}\u{345}"],
["\u{1f83}","\u{3b1}\u{314}\u{300}\u{345}","\u{1f83}","\u{3b1}\u{314}\u{300}\u{345}"],
["\u{1f84}","\u{3b1}\u{313}\u{301}\u{345}","\u{1f84}","\u{3b1}\u{313}\u{301}\u{345}"],
["\u{1f85}","\u{3b1}\u{314}\u{301}\u{345}","\u{1f85}","\u{3b1}\u{314}\u{301}\u{345}"],
["\u{1f86}","\u{3b1}\u{313}\u{342}\u{345}","\u{1f86}","\u{3b1}\u{313}\u{342}\u{345}"],
["\u{1f87}","\u{3b1}\u{314}\u{342}\u{345}","\u{1f87}","\u{3b1}\u{314}\u{342}\u{345}"],
["\u{1f88}","\u{391}\u{313}\u{345}","\u{1f88}","\u{391}\u{313}\u{345}"],
["\u{1f89}","\u{391}\u{314}\u{345}","\u{1f89}","\u{391}\u{314}\u{345}"],
["\u{1f8a}","\u{391}\u{313}\u{300}\u{345}","\u{1f8a}","\u{391}\u{313}\u{300}\u{345}"],
["\u{1f8b}","\u{391}\u{314}\u{300}\u{345}","\u{1f8b}","\u{391}\u{314}\u{300}\u{345}"],
["\u{1f8c}","\u{391}\u{313}\u{301}\u{345}","\u{1f8c}","\u{391}\u{313}\u{301}\u{345}"],
["\u{1f8d}","\u{391}\u{314}\u{301}\u{345}","\u{1f8d}","\u{391}\u{314}\u{301}\u{345}"],
["\u{1f8e}","\u{391}\u{313}\u{342}\u{345}","\u{1f8e}","\u{391}\u{313}\u{342}\u{345}"],
["\u{1f8f}","\u{391}\u{314}\u{342}\u{345}","\u{1f8f}","\u{391}\u{314}\u{342}\u{345}"],
["\u{1f90}","\u{3b7}\u{313}\u{345}","\u{1f90}","\u{3b7}\u{313}\u{345}"],
["\u{1f91}","\u{3b7}\u{314}\u{345}","\u{1f91}","\u{3b7}\u{314}\u{345}"],
["\u{1f92}","\u{3b7}\u{313}\u{300}\u{345}","\u{1f92}","\u{3b7}\u{313}\u{300}\u{345}"],
["\u{1f93}","\u{3b7}\u{314}\u{300}\u{345}","\u{1f93}","\u{3b7}\u{314}\u{300}\u{345}"],
["\u{1f94}","\u{3b7}\u{313}\u{301}\u{345}","\u{1f94}","\u{3b7}\u{313}\u{301}\u{345}"],
["\u{1f95}","\u{3b7}\u{314}\u{301}\u{345}","\u{1f95}","\u{3b7}\u{314}\u{301}\u{345}"],
["\u{1f96}","\u{3b7}\u{313}\u{342}\u{345}","\u{1f96}","\u{3b7}\u{313}\u{342}\u{345}"],
["\u{1f97}","\u{3b7}\u{314}\u{342}\u{345}","\u{1f97}","\u{3b7}\u{314}\u{342}\u{345}"],
["\u{1f98}","\u{397}\u{313}\u{345}","\u{1f98}","\u{397}\u{313}\u{345}"],
["\u{1f99}","\u{397}\u{314}\u{345}","\u{1f99}","\u{397}\u{314}\u{345}"],
["\u{1f9a}","\u{397}\u{313}\u{300}\u{345}","\u{1f9a}","\u{397}\u{313}\u{300}\u{345}"],
["\u{1f9b}","\u{397}\u{314}\u{300}\u{345}","\u{1f9b}","\u{397}\u{314}\u{300}\u{345}"],
["\u{1f9c}","\u{397}\u{313}\u{301}\u{345}","\u{1f9c}","\u{397}\u{313}\u{301}\u{345}"],
["\u{1f9d}","\u{397}\u{314}\u{301}\u{345}","\u{1f9d}","\u{397}\u{314}\u{301}\u{345}"],
["\u{1f9e}","\u{397}\u{313}\u{342}\u{345}","\u{1f9e}","\u{397}\u{313}\u{342}\u{345}"],
["\u{1f9f}","\u{397}\u{314}\u{342}\u{345}","\u{1f9f}","\u{397}\u{314}\u{342}\u{345}"],
["\u{1fa0}","\u{3c9}\u{313}\u{345}","\u{1fa0}","\u{3c9}\u{313}\u{345}"],
["\u{1fa1}","\u{3c9}\u{314}\u{345}","\u{1fa1}","\u{3c9}\u{314}\u{345}"],
["\u{1fa2}","\u{3c9}\u{313}\u{300}\u{345}","\u{1fa2}","\u{3c9}\u{313}\u{300}\u{345}"],
["\u{1fa3}","\u{3c9}\u{314}\u{300}\u{345}","\u{1fa3}","\u{3c9}\u{314}\u{300}\u{345}"],
["\u{1fa4}","\u{3c9}\u{313}\u{301}\u{345}","\u{1fa4}","\u{3c9}\u{313}\u{301}\u{345}"],
["\u{1fa5}","\u{3c9}\u{314}\u{301}\u{345}","\u{1fa5}","\u{3c9}\u{314}\u{301}\u{345}"],
["\u{1fa6}","\u{3c9}\u{313}\u{342}\u{345}","\u{1fa6}","\u{3c9}\u{313}\u{342}\u{345}"],
["\u{1fa7}","\u{3c9}\u{314}\u{342}\u{345}","\u{1fa7}","\u{3c9}\u{314}\u{342}\u{345}"],
["\u{1fa8}","\u{3a9}\u{313}\u{345}","\u{1fa8}","\u{3a9}\u{313}\u{345}"],
["\u{1fa9}","\u{3a9}\u{314}\u{345}","\u{1fa9}","\u{3a9}\u{314}\u{345}"],
["\u{1faa}","\u{3a9}\u{313}\u{300}\u{345}","\u{1faa}","\u{3a9}\u{313}\u{300}\u{345}"],
["\u{1fab}","\u{3a9}\u{314}\u{300}\u{345}","\u{1fab}","\u{3a9}\u{314}\u{300}\u{345}"],
["\u{1fac}","\u{3a9}\u{313}\u{301}\u{345}","\u{1fac}","\u{3a9}\u{313}\u{301}\u{345}"],
["\u{1fad}","\u{3a9}\u{314}\u{301}\u{345}","\u{1fad}","\u{3a9}\u{314}\u{301}\u{345}"],
["\u{1fae}","\u{3a9}\u{313}\u{342}\u{345}","\u{1fae}","\u{3a9}\u{313}\u{342}\u{345}"],
["\u{1faf}","\u{3a9}\u{314}\u{342}\u{345}","\u{1faf}","\u{3a9}\u{314}\u{342}\u{345}"],
["\u{1fb0}","\u{3b1}\u{306}","\u{1fb0}","\u{3b1}\u{306}"],
["\u{1fb1}","\u{3b1}\u{304}","\u{1fb1}","\u{3b1}\u{304}"],
["\u{1fb2}","\u{3b1}\u{300}\u{345}","\u{1fb2}","\u{3b1}\u{300}\u{345}"],
["\u{1fb3}","\u{3b1}\u{345}","\u{1fb3}","\u{3b1}\u{345}"],
["\u{1fb4}","\u{3b1}\u{301}\u{345}","\u{1fb4}","\u{3b1}\u{301}\u{345}"],
["","","",""],
["\u{1fb6}","\u{3b1}\u{342}","\u{1fb6}","\u{3b1}\u{342}"],
["\u{1fb7}","\u{3b1}\u{342}\u{345}","\u{1fb7}","\u{3b1}\u{342}\u{345}"],
["\u{1fb8}","\u{391}\u{306}","\u{1fb8}","\u{391}\u{306}"],
["\u{1fb9}","\u{391}\u{304}","\u{1fb9}","\u{391}\u{304}"],
["\u{1fba}","\u{391}\u{300}","\u{1fba}","\u{391}\u{300}"],
["\u{386}","\u{391}\u{301}","\u{386}","\u{391}\u{301}"],
["\u{1fbc}","\u{391}\u{345}","\u{1fbc}","\u{391}\u{345}"],
["\u{1fbd}","\u{1fbd}","\u{20}\u{313}","\u{20}\u{313}"],
["\u{3b9}","\u{3b9}","\u{3b9}","\u{3b9}"],
["\u{1fbf}","\u{1fbf}","\u{20}\u{313}","\u{20}\u{313}"],
["\u{1fc0}","\u{1fc0}","\u{20}\u{342}","\u{20}\u{342}"],
["\u{1fc1}","\u{a8}\u{342}","\u{20}\u{308}\u{342}","\u{20}\u{308}\u{342}"],
["\u{1fc2}","\u{3b7}\u{300}\u{345}","\u{1fc2}","\u{3b7}\u{300}\u{345}"],
["\u{1fc3}","\u{3b7}\u{345}","\u{1fc3}","\u{3b7}\u{345}"],
["\u{1fc4}","\u{3b7}\u{301}\u{345}","\u{1fc4}","\u{3b7}\u{301}\u{345}"],
["","","",""],
["\u{1fc6}","\u{3b7}\u{342}","\u{1fc6}","\u{3b7}\u{342}"],
["\u{1fc7}","\u{3b7}\u{342}\u{345}","\u{1fc7}","\u{3b7}\u{342}\u{345}"],
["\u{1fc8}","\u{395}\u{300}","\u{1fc8}","\u{395}\u{300}"],
["\u{388}","\u{395}\u{301}","\u{388}","\u{395}\u{301}"],
["\u{1fca}","\u{397}\u{300}","\u{1fca}","\u{397}\u{300}"],
["\u{389}","\u{397}\u{301}","\u{389}","\u{397}\u{301}"],
["\u{1fcc}","\u{397}\u{345}","\u{1fcc}","\u{397}\u{345}"],
["\u{1fcd}","\u{1fbf}\u{300}","\u{20}\u{313}\u{300}","\u{20}\u{313}\u{300}"],
["\u{1fce}","\u{1fbf}\u{301}","\u{20}\u{313}\u{301}","\u{20}\u{313}\u{301}"],
["\u{1fcf}","\u{1fbf}\u{342}","\u{20}\u{313}\u{342}","\u{20}\u{313}\u{342}"],
["\u{1fd0}","\u{3b9}\u{306}","\u{1fd0}","\u{3b9}\u{306}"],
["\u{1fd1}","\u{3b9}\u{304}","\u{1fd1}","\u{3b9}\u{304}"],
["\u{1fd2}","\u{3b9}\u{308}\u{300}","\u{1fd2}","\u{3b9}\u{308}\u{300}"],
["\u{390}","\u{3b9}\u{308}\u{301}","\u{390}","\u{3b9}\u{308}\u{301}"],
["","","",""],
["","","",""],
["\u{1fd6}","\u{3b9}\u{342}","\u{1fd6}","\u{3b9}\u{342}"],
["\u{1fd7}","\u{3b9}\u{308}\u{342}","\u{1fd7}","\u{3b9}\u{308}\u{342}"],
["\u{1fd8}","\u{399}\u{306}","\u{1fd8}","\u{399}\u{306}"],
["\u{1fd9}","\u{399}\u{304}","\u{1fd9}","\u{399}\u{304}"],
["\u{1fda}","\u{399}\u{300}","\u{1fda}","\u{399}\u{300}"],
["\u{38a}","\u{399}\u{301}","\u{38a}","\u{399}\u{301}"],
["","","",""],
["\u{1fdd}","\u{1ffe}\u{300}","\u{20}\u{314}\u{300}","\u{20}\u{314}\u{300}"],
["\u{1fde}","\u{1ffe}\u{301}","\u{20}\u{314}\u{301}","\u{20}\u{314}\u{301}"],
["\u{1fdf}","\u{1ffe}\u{342}","\u{20}\u{314}\u{342}","\u{20}\u{314}\u{342}"],
["\u{1fe0}","\u{3c5}\u{306}","\u{1fe0}","\u{3c5}\u{306}"],
["\u{1fe1}","\u{3c5}\u{304}","\u{1fe1}","\u{3c5}\u{304}"],
["\u{1fe2}","\u{3c5}\u{308}\u{300}","\u{1fe2}","\u{3c5}\u{308}\u{300}"],
["\u{3b0}","\u{3c5}\u{308}\u{301}","\u{3b0}","\u{3c5}\u{308}\u{301}"],
["\u{1fe4}","\u{3c1}\u{313}","\u{1fe4}","\u{3c1}\u{313}"],
["\u{1fe5}","\u{3c1}\u{314}","\u{1fe5}","\u{3c1}\u{314}"],
["\u{1fe6}","\u{3c5}\u{342}","\u{1fe6}","\u{3c5}\u{342}"],
["\u{1fe7}","\u{3c5}\u{308}\u{342}","\u{1fe7}","\u{3c5}\u{308}\u{342}"],
["\u{1fe8}","\u{3a5}\u{306}","\u{1fe8}","\u{3a5}\u{306}"],
["\u{1fe9}","\u{3a5}\u{304}","\u{1fe9}","\u{3a5}\u{304}"],
["\u{1fea}","\u{3a5}\u{300}","\u{1fea}","\u{3a5}\u{300}"],
["\u{38e}","\u{3a5}\u{301}","\u{38e}","\u{3a5}\u{301}"],
["\u{1fec}","\u{3a1}\u{314}","\u{1fec}","\u{3a1}\u{314}"],
["\u{1fed}","\u{a8}\u{300}","\u{20}\u{308}\u{300}","\u{20}\u{308}\u{300}"],
["\u{385}","\u{a8}\u{301}","\u{20}\u{308}\u{301}","\u{20}\u{308}\u{301}"],
["\u{60}","\u{60}","\u{60}","\u{60}"],
["","","",""],
["","","",""],
["\u{1ff2}","\u{3c9}\u{300}\u{345}","\u{1ff2}","\u{3c9}\u{300}\u{345}"],
["\u{1ff3}","\u{3c9}\u{345}","\u{1ff3}","\u{3c9}\u{345}"],
["\u{1ff4}","\u{3c9}\u{301}\u{345}","\u{1ff4}","\u{3c9}\u{301}\u{345}"],
["","","",""],
["\u{1ff6}","\u{3c9}\u{342}","\u{1ff6}","\u{3c9}\u{342}"],
["\u{1ff7}","\u{3c9}\u{342}\u{345}","\u{1ff7}","\u{3c9}\u{342}\u{345}"],
["\u{1ff8}","\u{39f}\u{300}","\u{1ff8}","\u{39f}\u{300}"],
["\u{38c}","\u{39f}\u{301}","\u{38c}","\u{39f}\u{301}"],
["\u{1ffa}","\u{3a9}\u{300}","\u{1ffa}","\u{3a9}\u{300}"],
["\u{38f}","\u{3a9}\u{301}","\u{38f}","\u{3a9}\u{301}"],
["\u{1ffc}","\u{3a9}\u{345}","\u{1ffc}","\u{3a9}\u{345}"],
["\u{b4}","\u{b4}","\u{20}\u{301}","\u{20}\u{301}"],
["\u{1ffe}","\u{1ffe}","\u{20}\u{314}","\u{20}\u{314}"],
    ]),
    (0x900, 0x9ff, &[
["\u{900}","\u{900}","\u{900}","\u{900}"],
["\u{901}","\u{901}","\u{901}","\u{901}"],
["\u{902}","\u{902}","\u{902}","\u{902}"],
["\u{903}","\u{903}","\u{903}","\u{903}"],
["\u{904}","\u{904}","\u{904}","\u{904}"],
["\u{905}","\u{905}","\u{905}","\u{905}"],
["\u{906}","\u{906}","\u{906}","\u{906}"],
["\u{907}","\u{907}","\u{907}","\u{907}"],
["\u{908}","\u{908}","\u{908}","\u{908}"],
["\u{909}","\u{909}","\u{909}","\u{909}"],
["\u{90a}","\u{90a}","\u{90a}","\u{90a}"],
["\u{90b}","\u{90b}","\u{90b}","\u{90b}"],
["\u{90c}","\u{90c}","\u{90c}","\u{90c}"],
["\u{90d}","\u{90d}","\u{90d}","\u{90d}"],
["\u{90e}","\u{90e}","\u{90e}","\u{90e}"],
["\u{90f}","\u{90f}","\u{90f}","\u{90f}"],
["\u{910}","\u{910}","\u{910}","\u{910}"],
["\u{911}","\u{911}","\u{911}","\u{911}"],
["\u{912}","\u{912}","\u{912}","\u{912}"],
["\u{913}","\u{913}","\u{913}","\u{913}"],
["\u{914}","\u{914}","\u{914}","\u{914}"],
["\u{915}","\u{915}","\u{915}","\u{915}"],
["\u{916}","\u{916}","\u{916}","\u{916}"],
["\u{917}","\u{917}","\u{917}","\u{917}"],
["\u{918}","\u{918}","\u{918}","\u{918}"],
["\u{919}","\u{919}","\u{919}","\u{919}"],
["\u{91a}","\u{91a}","\u{91a}","\u{91a}"],
["\u{91b}","\u{91b}","\u{91b}","\u{91b}"],
["\u{91c}","\u{91c}","\u{91c}","\u{91c}"],
["\u{91d}","\u{91d}","\u{91d}","\u{91d}"],
["\u{91e}","\u{91e}","\u{91e}","\u{91e}"],
["\u{91f}","\u{91f}","\u{91f}","\u{91f}"],
["\u{920}","\u{920}","\u{920}","\u{920}"],
["\u{921}","\u{921}","\u{921}","\u{921}"],
["\u{922}","\u{922}","\u{922}","\u{922}"],
["\u{923}","\u{923}","\u{923}","\u{923}"],
["\u{924}","\u{924}","\u{924}","\u{924}"],
["\u{925}","\u{925}","\u{925}","\u{925}"],
["\u{926}","\u{926}","\u{926}","\u{926}"],
["\u{927}","\u{927}","\u{927}","\u{927}"],
["\u{928}","\u{928}","\u{928}","\u{928}"],
["\u{929}","\u{928}\u{93c}","\u{929}","\u{928}\u{93c}"],
["\u{92a}","\u{92a}","\u{92a}","\u{92a}"],
["\u{92b}","\u{92b}","\u{92b}","\u{92b}"],
["\u{92c}","\u{92c}","\u{92c}","\u{92c}"],
["\u{92d}","\u{92d}","\u{92d}","\u{92d}"],
["\u{92e}","\u{92e}","\u{92e}","\u{92e}"],
["\u{92f}","\u{92f}","\u{92f}","\u{92f}"],
["\u{930}","\u{930}","\u{930}","\u{930}"],
["\u{931}","\u{930}\u{93c}","\u{931}","\u{930}\u{93c}"],
["\u{932}","\u{932}","\u{932}","\u{932}"],
["\u{933}","\u{933}","\u{933}","\u{933}"],
["\u{934}","\u{933}\u{93c}","\u{934}","\u{933}\u{93c}"],
["\u{935}","\u{935}","\u{935}","\u{935}"],
["\u{936}","\u{936}","\u{936}","\u{936}"],
["\u{937}","\u{937}","\u{937}","\u{937}"],
["\u{938}","\u{938}","\u{938}","\u{938}"],
["\u{939}","\u{939}","\u{939}","\u{939}"],
["\u{93a}","\u{93a}","\u{93a}","\u{93a}"],
["\u{93b}","\u{93b}","\u{93b}","\u{93b}"],
["\u{93c}","\u{93c}","\u{93c}","\u{93c}"],
["\u{93d}","\u{93d}","\u{93d}","\u{93d}"],
["\u{93e}","\u{93e}","\u{93e}","\u{93e}"],
["\u{93f}","\u{93f}","\u{93f}","\u{93f}"],
["\u{940}","\u{940}","\u{940}","\u{940}"],
["\u{941}","\u{941}","\u{941}","\u{941}"],
["\u{942}","\u{942}","\u{942}","\u{942}"],
["\u{943}","\u{943}","\u{943}","\u{943}"],
["\u{944}","\u{944}","\u{944}","\u{944}"],
["\u{945}","\u{945}","\u{945}","\u{945}"],
["\u{946}","\u{946}","\u{946}","\u{946}"],
["\u{947}","\u{947}","\u{947}","\u{947}"],
["\u{948}","\u{948}","\u{948}","\u{948}"],
["\u{949}","\u{949}","\u{949}","\u{949}"],
["\u{94a}","\u{94a}","\u{94a}","\u{94a}"],
["\u{94b}","\u{94b}","\u{94b}","\u{94b}"],
["\u{94c}","\u{94c}","\u{94c}","\u{94c}"],
["\u{94d}","\u{94d}","\u{94d}","\u{94d}"],
["\u{94e}","\u{94e}","\u{94e}","\u{94e}"],
["\u{94f}","\u{94f}","\u{94f}","\u{94f}"],
["\u{950}","\u{950}","\u{950}","\u{950}"],
["\u{951}","\u{951}","\u{951}","\u{951}"],
["\u{952}","\u{952}","\u{952}","\u{952}"],
["\u{953}","\u{953}","\u{953}","\u{953}"],
["\u{954}","\u{954}","\u{954}","\u{954}"],
["\u{955}","\u{955}","\u{955}","\u{955}"],
["\u{956}","\u{956}","\u{956}","\u{956}"],
["\u{957}","\u{957}","\u{957}","\u{957}"],
["\u{915}\u{93c}","\u{915}\u{93c}","\u{915}\u{93c}","\u{915}\u{93c}"],
["\u{916}\u{93c}","\u{916}\u{93c}","\u{916}\u{93c}","\u{916}\u{93c}"],
["\u{917}\u{93c}","\u{917}\u{93c}","\u{917}\u{93c}","\u{917}\u{93c}"],
["\u{91c}\u{93c}","\u{91c}\u{93c}","\u{91c}\u{93c}","\u{91c}\u{93c}"],
["\u{921}\u{93c}","\u{921}\u{93c}","\u{921}\u{93c}","\u{921}\u{93c}"],
["\u{922}\u{93c}","\u{922}\u{93c}","\u{922}\u{93c}","\u{922}\u{93c}"],
["\u{92b}\u{93c}","\u{92b}\u{93c}","\u{92b}\u{93c}","\u{92b}\u{93c}"],
["\u{92f}\u{93c}","\u{92f}\u{93c}","\u{92f}\u{93c}","\u{92f}\u{93c}"],
["\u{960}","\u{960}","\u{960}","\u{960}"],
["\u{961}","\u{961}","\u{961}","\u{961}"],
["\u{962}","\u{962}","\u{962}","\u{962}"],
["\u{963}","\u{963}","\u{963}","\u{963}"],
["\u{964}","\u{964}","\u{964}","\u{964}"],
["\u{965}","\u{965}","\u{965}","\u{965}"],
["\u{966}","\u{966}","\u{966}","\u{966}"],
["\u{967}","\u{967}","\u{967}","\u{967}"],
["\u{968}","\u{968}","\u{968}","\u{968}"],
["\u{969}","\u{969}","\u{969}","\u{969}"],
["\u{96a}","\u{96a}","\u{96a}","\u{96a}"],
["\u{96b}","\u{96b}","\u{96b}","\u{96b}"],
["\u{96c}","\u{96c}","\u{96c}","\u{96c}"],
["\u{96d}","\u{96d}","\u{96d}","\u{96d}"],
["\u{96e}","\u{96e}","\u{96e}","\u{96e}"],
["\u{96f}","\u{96f}","\u{96f}","\u{96f}"],
["\u{970}","\u{970}","\u{970}","\u{970}"],
["\u{971}","\u{971}","\u{971}","\u{971}"],
["\u{972}","\u{972}","\u{972}","\u{972}"],
["\u{973}","\u{973}","\u{973}","\u{973}"],
["\u{974}","\u{974}","\u{974}","\u{974}"],
["\u{975}","\u{975}","\u{975}","\u{975}"],
["\u{976}","\u{976}","\u{976}","\u{976}"],
["\u{977}","\u{977}","\u{977}","\u{977}"],
["\u{978}","\u{978}","\u{978}","\u{978}"],
["\u{979}","\u{979}","\u{979}","\u{979}"],
["\u{97a}","\u{97a}","\u{97a}","\u{97a}"],
["\u{97b}","\u{97b}","\u{97b}","\u{97b}"],
["\u{97c}","\u{97c}","\u{97c}","\u{97c}"],
["\u{97d}","\u{97d}","\u{97d}","\u{97d}"],
["\u{97e}","\u{97e}","\u{97e}","\u{97e}"],
["\u{97f}","\u{97f}","\u{97f}","\u{97f}"],
["\u{980}","\u{980}","\u{980}","\u{980}"],
["\u{981}","\u{981}","\u{981}","\u{981}"],
["\u{982}","\u{982}","\u{982}","\u{982}"],
["\u{983}","\u{983}","\u{983}","\u{983}"],
["","","",""],
["\u{985}","\u{985}","\u{985}","\u{985}"],
["\u{986}","\u{986}","\u{986}","\u{986}"],
["\u{987}","\u{987}","\u{987}","\u{987}"],
["\u{988}","\u{988}","\u{988}","\u{988}"],
["\u{989}","\u{989}","\u{989}","\u{989}"],
["\u{98a}","\u{98a}","\u{98a}","\u{98a}"],
["\u{98b}","\u{98b}","\u{98b}","\u{98b}"],
["\u{98c}","\u{98c}","\u{98c}","\u{98c}"],
["","","",""],
["","","",""],
["\u{98f}","\u{98f}","\u{98f}","\u{98f}"],
["\u{990}","\u{990}","\u{990}","\u{990}"],
["","","",""],
["","","",""],
["\u{993}","\u{993}","\u{993}","\u{993}"],
["\u{994}","\u{994}","\u{994}","\u{994}"],
["\u{995}","\u{995}","\u{995}","\u{995}"],
["\u{996}","\u{996}","\u{996}","\u{996}"],
["\u{997}","\u{997}","\u{997}","\u{997}"],
["\u{998}","\u{998}","\u{998}","\u{998}"],
["\u{999}","\u{999}","\u{999}","\u{999}"],
["\u{99a}","\u{99a}","\u{99a}","\u{99a}"],
["\u{99b}","\u{99b}","\u{99b}","\u{99b}"],
["\u{99c}","\u{99c}","\u{99c}","\u{99c}"],
["\u{99d}","\u{99d}","\u{99d}","\u{99d}"],
["\u{99e}","\u{99e}","\u{99e}","\u{99e}"],
["\u{99f}","\u{99f}","\u{99f}","\u{99f}"],
["\u{9a0}","\u{9a0}","\u{9a0}","\u{9a0}"],
["\u{9a1}","\u{9a1}","\u{9a1}","\u{9a1}"],
["\u{9a2}","\u{9a2}","\u{9a2}","\u{9a2}"],
["\u{9a3}","\u{9a3}","\u{9a3}","\u{9a3}"],
["\u{9a4}","\u{9a4}","\u{9a4}","\u{9a4}"],
["\u{9a5}","\u{9a5}","\u{9a5}","\u{9a5}"],
["\u{9a6}","\u{9a6}","\u{9a6}","\u{9a6}"],
["\u{9a7}","\u{9a7}","\u{9a7}","\u{9a7}"],
["\u{9a8}","\u{9a8}","\u{9a8}","\u{9a8}"],
["","","",""],
["\u{9aa}","\u{9aa}","\u{9aa}","\u{9aa}"],
["\u{9ab}","\u{9ab}","\u{9ab}","\u{9ab}"],
["\u{9ac}","\u{9ac}","\u{9ac}","\u{9ac}"],
["\u{9ad}","\u{9ad}","\u{9ad}","\u{9ad}"],
["\u{9ae}","\u{9ae}","\u{9ae}","\u{9ae}"],
["\u{9af}","\u{9af}","\u{9af}","\u{9af}"],
["\u{9b0}","\u{9b0}","\u{9b0}","\u{9b0}"],
["","","",""],
["\u{9b2}","\u{9b2}","\u{9b2}","\u{9b2}"],
["","","",""],
["","","",""],
["","","",""],
["\u{9b6}","\u{9b6}","\u{9b6}","\u{9b6}"],
["\u{9b7}","\u{9b7}","\u{9b7}","\u{9b7}"],
["\u{9b8}","\u{9b8}","\u{9b8}","\u{9b8}"],
["\u{9b9}","\u{9b9}","\u{9b9}","\u{9b9}"],
["","","",""],
["","","",""],
["\u{9bc}","\u{9bc}","\u{9bc}","\u{9bc}"],
["\u{9bd}","\u{9bd}","\u{9bd}","\u{9bd}"],
["\u{9be}","\u{9be}","\u{9be}","\u{9be}"],
["\u{9bf}","\u{9bf}","\u{9bf}","\u{9bf}"],
["\u{9c0}","\u{9c0}","\u{9c0}","\u{9c0}"],
["\u{9c1}","\u{9c1}","\u{9c1}","\u{9c1}"],
["\u{9c2}","\u{9c2}","\u{9c2}","\u{9c2}"],
["\u{9c3}","\u{9c3}","\u{9c3}","\u{9c3}"],
["\u{9c4}","\u{9c4}","\u{9c4}","\u{9c4}"],
["","","",""],
["","","",""],
["\u{9c7}","\u{9c7}","\u{9c7}","\u{9c7}"],
["\u{9c8}","\u{9c8}","\u{9c8}","\u{9c8}"],
["","","",""],
["","","",""],
["\u{9cb}","\u{9c7}\u{9be}","\u{9cb}","\u{9c7}\u{9be}"],
["\u{9cc}","\u{9c7}\u{9d7}","\u{9cc}","\u{9c7}\u{9d7}"],
["\u{9cd}","\u{9cd}","\u{9cd}","\u{9cd}"],
["\u{9ce}","\u{9ce}","\u{9ce}","\u{9ce}"],
["","","",""],
["","","",""],
["","","",""],
["","","",""],
["","","",""],
["","","",""],
["","","",""],
["","","",""],
["\u{9d7}","\u{9d7}","\u{9d7}","\u{9d7}"],
["","","",""],
["","","",""],
["","","",""],
["","","",""],
["\u{9a1}\u{9bc}","\u{9a1}\u{9bc}","\u{9a1}\u{9bc}","\u{9a1}\u{9bc}"],
["\u{9a2}\u{9bc}","\u{9a2}\u{9bc}","\u{9a2}\u{9bc}","\u{9a2}\u{9bc}"],
["","","",""],
["\u{9af}\u{9bc}","\u{9af}\u{9bc}","\u{9af}\u{9bc}","\u{9af}\u{9bc}"],
["\u{9e0}","\u{9e0}","\u{9e0}","\u{9e0}"],
["\u{9e1}","\u{9e1}","\u{9e1}","\u{9e1}"],
["\u{9e2}","\u{9e2}","\u{9e2}","\u{9e2}"],
["\u{9e3}","\u{9e3}","\u{9e3}","\u{9e3}"],
["","","",""],
["","","",""],
["\u{9e6}","\u{9e6}","\u{9e6}","\u{9e6}"],
["\u{9e7}","\u{9e7}","\u{9e7}","\u{9e7}"],
["\u{9e8}","\u{9e8}","\u{9e8}","\u{9e8}"],
["\u{9e9}","\u{9e9}","\u{9e9}","\u{9e9}"],
["\u{9ea}","\u{9ea}","\u{9ea}","\u{9ea}"],
["\u{9eb}","\u{9eb}","\u{9eb}","\u{9eb}"],
["\u{9ec}","\u{9ec}","\u{9ec}","\u{9ec}"],
["\u{9ed}","\u{9ed}","\u{9ed}","\u{9ed}"],
["\u{9ee}","\u{9ee}","\u{9ee}","\u{9ee}"],
["\u{9ef}","\u{9ef}","\u{9ef}","\u{9ef}"],
["\u{9f0}","\u{9f0}","\u{9f0}","\u{9f0}"],
["\u{9f1}","\u{9f1}","\u{9f1}","\u{9f1}"],
["\u{9f2}","\u{9f2}","\u{9f2}","\u{9f2}"],
["\u{9f3}","\u{9f3}","\u{9f3}","\u{9f3}"],
["\u{9f4}","\u{9f4}","\u{9f4}","\u{9f4}"],
["\u{9f5}","\u{9f5}","\u{9f5}","\u{9f5}"],
["\u{9f6}","\u{9f6}","\u{9f6}","\u{9f6}"],
["\u{9f7}","\u{9f7}","\u{9f7}","\u{9f7}"],
["\u{9f8}","\u{9f8}","\u{9f8}","\u{9f8}"],
["\u{9f9}","\u{9f9}","\u{9f9}","\u{9f9}"],
["\u{9fa}","\u{9fa}","\u{9fa}","\u{9fa}"],
["\u{9fb}","\u{9fb}","\u{9fb}","\u{9fb}"],
["\u{9fc}","\u{9fc}","\u{9fc}","\u{9fc}"],
["\u{9fd}","\u{9fd}","\u{9fd}","\u{9fd}"],
["\u{9fe}","\u{9fe}","\u{9fe}","\u{9fe}"],
["","","",""],
    ]),
    (0x1d15e, 0x1d164, &[
["\u{1d157}\u{1d165}","\u{1d157}\u{1d165}","\u{1d157}\u{1d165}","\u{1d157}\u{1d165}"],
["\u{1d158}\u{1d165}","\u{1d158}\u{1d165}","\u{1d158}\u{1d165}","\u{1d158}\u{1d165}"],
["\u{1d158}\u{1d165}\u{1d16e}","\u{1d158}\u{1d165}\u{1d16e}","\u{1d158}\u{1d165}\u{1d16e}","\u{1d158}\u{1d165}\u{1d16e}"],
["\u{1d158}\u{1d165}\u{1d16f}","\u{1d158}\u{1d165}\u{1d16f}","\u{1d158}\u{1d165}\u{1d16f}","\u{1d158}\u{1d165}\u{1d16f}"],
["\u{1d158}\u{1d165}\u{1d170}","\u{1d158}\u{1d165}\u{1d170}","\u{1d158}\u{1d165}\u{1d170}","\u{1d158}\u{1d165}\u{1d170}"],
["\u{1d158}\u{1d165}\u{1d171}","\u{1d158}\u{1d165}\u{1d171}","\u{1d158}\u{1d165}\u{1d171}","\u{1d158}\u{1d165}\u{1d171}"],
["\u{1d158}\u{1d165}\u{1d172}","\u{1d158}\u{1d165}\u{1d172}","\u{1d158}\u{1d165}\u{1d172}","\u{1d158}\u{1d165}\u{1d172}"],
    ]),
    (0x2f800, 0x2fa1d, &[
["\u{4e3d}","\u{4e3d}","\u{4e3d}","\u{4e3d}"],
["\u{4e38}","\u{4e38}","\u{4e38}","\u{4e38}"],
["\u{4e41}","\u{4e41}","\u{4e41}","\u{4e41}"],
["\u{20122}","\u{20122}","\u{20122}","\u{20122}"],
["\u{4f60}","\u{4f60}","\u{4f60}","\u{4f60}"],
["\u{4fae}","\u{4fae}","\u{4fae}","\u{4fae}"],
["\u{4fbb}","\u{4fbb}","\u{4fbb}","\u{4fbb}"],
["\u{5002}","\u{5002}","\u{5002}","\u{5002}"],
["\u{507a}","\u{507a}","\u{507a}","\u{507a}"],
["\u{5099}","\u{5099}","\u{5099}","\u{5099}"],
["\u{50e7}","\u{50e7}","\u{50e7}","\u{50e7}"],
["\u{50cf}","\u{50cf}","\u{50cf}","\u{50cf}"],
["\u{349e}","\u{349e}","\u{349e}","\u{349e}"],
["\u{2063a}","\u{2063a}","\u{2063a}","\u{2063a}"],
["\u{514d}","\u{514d}","\u{514d}","\u{514d}"],
["\u{5154}","\u{5154}","\u{5154}","\u{5154}"],
["\u{5164}","\u{5164}","\u{5164}","\u{5164}"],
["\u{5177}","\u{5177}","\u{5177}","\u{5177}"],
["\u{2051c}","\u{2051c}","\u{2051c}","\u{2051c}"],
["\u{34b9}","\u{34b9}","\u{34b9}","\u{34b9}"],
["\u{5167}","\u{5167}","\u{5167}","\u{5167}"],
["\u{518d}","\u{518d}","\u{518d}","\u{518d}"],
["\u{2054b}","\u{2054b}","\u{2054b}","\u{2054b}"],
["\u{5197}","\u{5197}","\u{5197}","\u{5197}"],
["\u{51a4}","\u{51a4}","\u{51a4}","\u{51a4}"],
["\u{4ecc}","\u{4ecc}","\u{4ecc}","\u{4ecc}"],
["\u{51ac}","\u{51ac}","\u{51ac}","\u{51ac}"],
["\u{51b5}","\u{51b5}","\u{51b5}","\u{51b5}"],
["\u{291df}","\u{291df}","\u{291df}","\u{291df}"],
["\u{51f5}","\u{51f5}","\u{51f5}","\u{51f5}"],
["\u{5203}","\u{5203}","\u{5203}","\u{5203}"],
["\u{34df}","\u{34df}","\u{34df}","\u{34df}"],
["\u{523b}","\u{523b}","\u{523b}","\u{523b}"],
["\u{5246}","\u{5246}","\u{5246}","\u{5246}"],
["\u{5272}","\u{5272}","\u{5272}","\u{5272}"],
["\u{5277}","\u{5277}","\u{5277}","\u{5277}"],
["\u{3515}","\u{3515}","\u{3515}","\u{3515}"],
["\u{52c7}","\u{52c7}","\u{52c7}","\u{52c7}"],
["\u{52c9}","\u{52c9}","\u{52c9}","\u{52c9}"],
["\u{52e4}","\u{52e4}","\u{52e4}","\u{52e4}"],
["\u{52fa}","\u{52fa}","\u{52fa}","\u{52fa}"],
["\u{5305}","\u{5305}","\u{5305}","\u{5305}"],
["\u{5306}","\u{5306}","\u{5306}","\u{5306}"],
["\u{5317}","\u{5317}","\u{5317}","\u{5317}"],
["\u{5349}","\u{5349}","\u{5349}","\u{5349}"],
["\u{5351}","\u{5351}","\u{5351}","\u{5351}"],
["\u{535a}","\u{535a}","\u{535a}","\u{535a}"],
["\u{5373}","\u{5373}","\u{5373}","\u{5373}"],
["\u{537d}","\u{537d}","\u{537d}","\u{537d}"],
["\u{537f}","\u{537f}","\u{537f}","\u{537f}"],
["\u{537f}","\u{537f}","\u{537f}","\u{537f}"],
["\u{537f}","\u{537f}","\u{537f}","\u{537f}"],
["\u{20a2c}","\u{20a2c}","\u{20a2c}","\u{20a2c}"],
["\u{7070}","\u{7070}","\u{7070}","\u{7070}"],
["\u{53ca}","\u{53ca}","\u{53ca}","\u{53ca}"],
["\u{53df}","\u{53df}","\u{53df}","\u{53df}"],
["\u{20b63}","\u{20b63}","\u{20b63}","\u{20b63}"],
["\u{53eb}","\u{53eb}","\u{53eb}","\u{53eb}"],
["\u{53f1}","\u{53f1}","\u{53f1}","\u{53f1}"],
["\u{5406}","\u{5406}","\u{5406}","\u{5406}"],
["\u{549e}","\u{549e}","\u{549e}","\u{549e}"],
["\u{5438}","\u{5438}","\u{5438}","\u{5438}"],
["\u{5448}","\u{5448}","\u{5448}","\u{5448}"],
["\u{5468}","\u{5468}","\u{5468}","\u{5468}"],
["\u{54a2}","\u{54a2}","\u{54a2}","\u{54a2}"],
["\u{54f6}","\u{54f6}","\u{54f6}","\u{54f6}"],
["\u{5510}","\u{5510}","\u{5510}","\u{5510}"],
["\u{5553}","\u{5553}","\u{5553}","\u{5553}"],
["\u{5563}","\u{5563}","\u{5563}","\u{5563}"],
["\u{5584}","\u{5584}","\u{5584}","\u{5584}"],
["\u{5584}","\u{5584}","\u{5584}","\u{5584}"],
["\u{5599}","\u{5599}","\u{5599}","\u{5599}"],
["\u{55ab}","\u{55ab}","\u{55ab}","\u{55ab}"],
["\u{55b3}","\u{55b3}","\u{55b3}","\u{55b3}"],
["\u{55c2}","\u{55c2}","\u{55c2}","\u{55c2}"],
["\u{5716}","\u{5716}","\u{5716}","\u{5716}"],
["\u{5606}","\u{5606}","\u{5606}","\u{5606}"],
["\u{5717}","\u{5717}","\u{5717}","\u{5717}"],
["\u{5651}","\u{5651}","\u{5651}","\u{5651}"],
["\u{5674}","\u{5674}","\u{5674}","\u{5674}"],
["\u{5207}","\u{5207}","\u{5207}","\u{5207}"],
["\u{58ee}","\u{58ee}","\u{58ee}","\u{58ee}"],
["\u{57ce}","\u{57ce}","\u{57ce}","\u{57ce}"],
["\u{57f4}","\u{57f4}","\u{57f4}","\u{57f4}"],
["\u{580d}","\u{580d}","\u{580d}","\u{580d}"],
["\u{578b}","\u{578b}","\u{578b}","\u{578b}"],
["\u{5832}","\u{5832}","\u{5832}","\u{5832}"],
["\u{5831}","\u{5831}","\u{5831}","\u{5831}"],
["\u{58ac}","\u{58ac}","\u{58ac}","\u{58ac}"],
["\u{214e4}","\u{214e4}","\u{214e4}","\u{214e4}"],
["\u{58f2}","\u{58f2}","\u{58f2}","\u{58f2}"],
["\u{58f7}","\u{58f7}","\u{58f7}","\u{58f7}"],
["\u{5906}","\u{5906}","\u{5906}","\u{5906}"],
["\u{591a}","\u{591a}","\u{591a}","\u{591a}"],
["\u{5922}","\u{5922}","\u{5922}","\u{5922}"],
["\u{5962}","\u{5962}","\u{5962}","\u{5962}"],
["\u{216a8}","\u{216a8}","\u{216a8}","\u{216a8}"],
["\u{216ea}","\u{216ea}","\u{216ea}","\u{216ea}"],
["\u{59ec}","\u{59ec}","\u{59ec}","\u{59ec}"],
["\u{5a1b}","\u{5a1b}","\u{5a1b}","\u{5a1b}"],
["\u{5a27}","\u{5a27}","\u{5a27}","\u{5a27}"],
["\u{59d8}","\u{59d8}","\u{59d8}","\u{59d8}"],
["\u{5a66}","\u{5a66}","\u{5a66}","\u{5a66}"],
["\u{36ee}","\u{36ee}","\u{36ee}","\u{36ee}"],
["\u{36fc}","\u{36fc}","\u{36fc}","\u{36fc}"],
["\u{5b08}","\u{5b08}","\u{5b08}","\u{5b08}"],
["\u{5b3e}","\u{5b3e}","\u{5b3e}","\u{5b3e}"],
["\u{5b3e}","\u{5b3e}","\u{5b3e}","\u{5b3e}"],
["\u{219c8}","\u{219c8}","\u{219c8}","\u{219c8}"],
["\u{5bc3}","\u{5bc3}","\u{5bc3}","\u{5bc3}"],
["\u{5bd8}","\u{5bd8}","\u{5bd8}","\u{5bd8}"],
["\u{5be7}","\u{5be7}","\u{5be7}","\u{5be7}"],
["\u{5bf3}","\u{5bf3}","\u{5bf3}","\u{5bf3}"],
["\u{21b18}","\u{21b18}","\u{21b18}","\u{21b18}"],
["\u{5bff}","\u{5bff}","\u{5bff}","\u{5bff}"],
["\u{5c06}","\u{5c06}","\u{5c06}","\u{5c06}"],
["\u{5f53}","\u{5f53}","\u{5f53}","\u{5f53}"],
["\u{5c22}","\u{5c22}","\u{5c22}","\u{5c22}"],
["\u{3781}","\u{3781}","\u{3781}","\u{3781}"],
["\u{5c60}","\u{5c60}","\u{5c60}","\u{5c60}"],
["\u{5c6e}","\u{5c6e}","\u{5c6e}","\u{5c6e}"],
["\u{5cc0}","\u{5cc0}","\u{5cc0}","\u{5cc0}"],
["\u{5c8d}","\u{5c8d}","\u{5c8d}","\u{5c8d}"],
["\u{21de4}","\u{21de4}","\u{21de4}","\u{21de4}"],
["\u{5d43}","\u{5d43}","\u{5d43}","\u{5d43}"],
["\u{21de6}","\u{21de6}","\u{21de6}","\u{21de6}"],
["\u{5d6e}","\u{5d6e}","\u{5d6e}","\u{5d6e}"],
["\u{5d6b}","\u{5d6b}","\u{5d6b}","\u{5d6b}"],
["\u{5d7c}","\u{5d7c}","\u{5d7c}","\u{5d7c}"],
["\u{5de1}","\u{5de1}","\u{5de1}","\u{5de1}"],
["\u{5de2}","\u{5de2}","\u{5de2}","\u{5de2}"],
["\u{382f}","\u{382f}","\u{382f}","\u{382f}"],
["\u{5dfd}","\u{5dfd}","\u{5dfd}","\u{5dfd}"],
["\u{5e28}","\u{5e28}","\u{5e28}","\u{5e28}"],
["\u{5e3d}","\u{5e3d}","\u{5e3d}","\u{5e3d}"],
["\u{5e69}","\u{5e69}","\u{5e69}","\u{5e69}"],
["\u{3862}","\u{3862}","\u{3862}","\u{3862}"],
["\u{22183}","\u{22183}","\u{22183}","\u{22183}"],
["\u{387c}","\u{387c}","\u{387c}","\u{387c}"],
["\u{5eb0}","\u{5eb0}","\u{5eb0}","\u{5eb0}"],
["\u{5eb3}","\u{5eb3}","\u{5eb3}","\u{5eb3}"],
["\u{5eb6}","\u{5eb6}","\u{5eb6}","\u{5eb6}"],
["\u{5eca}","\u{5eca}","\u{5eca}","\u{5eca}"],
["\u{2a392}","\u{2a392}","\u{2a392}","\u{2a392}"],
["\u{5efe}","\u{5efe}","\u{5efe}","\u{5efe}"],
["\u{22331}","\u{22331}","\u{22331}","\u{22331}"],
["\u{22331}","\u{22331}","\u{22331}","\u{22331}"],
["\u{8201}","\u{8201}","\u{8201}","\u{8201}"],
["\u{5f22}","\u{5f22}","\u{5f22}","\u{5f22}"],
["\u{5f22}","\u{5f22}","\u{5f22}","\u{5f22}"],
["\u{38c7}","\u{38c7}","\u{38c7}","\u{38c7}"],
["\u{232b8}","\u{232b8}","\u{232b8}","\u{232b8}"],
["\u{261da}","\u{261da}","\u{261da}","\u{261da}"],
["\u{5f62}","\u{5f62}","\u{5f62}","\u{5f62}"],
["\u{5f6b}","\u{5f6b}","\u{5f6b}","\u{5f6b}"],
["\u{38e3}","\u{38e3}","\u{38e3}","\u{38e3}"],
["\u{5f9a}","\u{5f9a}","\u{5f9a}","\u{5f9a}"],
["\u{5fcd}","\u{5fcd}","\u{5fcd}","\u{5fcd}"],
["\u{5fd7}","\u{5fd7}","\u{5fd7}","\u{5fd7}"],
["\u{5ff9}","\u{5ff9}","\u{5ff9}","\u{5ff9}"],
["\u{6081}","\u{6081}","\u{6081}","\u{6081}"],
["\u{393a}","\u{393a}","\u{393a}","\u{393a}"],
["\u{391c}","\u{391c}","\u{391c}","\u{391c}"],
["\u{6094}","\u{6094}","\u{6094}","\u{6094}"],
["\u{226d4}","\u{226d4}","\u{226d4}","\u{226d4}"],
["\u{60c7}","\u{60c7}","\u{60c7}","\u{60c7}"],
["\u{6148}","\u{6148}","\u{6148}","\u{6148}"],
["\u{614c}","\u{614c}","\u{614c}","\u{614c}"],
["\u{614e}","\u{614e}","\u{614e}","\u{614e}"],
["\u{614c}","\u{614c}","\u{614c}","\u{614c}"],
["\u{617a}","\u{617a}","\u{617a}","\u{617a}"],
["\u{618e}","\u{618e}","\u{618e}","\u{618e}"],
["\u{61b2}","\u{61b2}","\u{61b2}","\u{61b2}"],
["\u{61a4}","\u{61a4}","\u{61a4}","\u{61a4}"],
["\u{61af}","\u{61af}","\u{61af}","\u{61af}"],
["\u{61de}","\u{61de}","\u{61de}","\u{61de}"],
["\u{61f2}","\u{61f2}","\u{61f2}","\u{61f2}"],
["\u{61f6}","\u{61f6}","\u{61f6}","\u{61f6}"],
["\u{6210}","\u{6210}","\u{6210}","\u{6210}"],
["\u{621b}","\u{621b}","\u{621b}","\u{621b}"],
["\u{625d}","\u{625d}","\u{625d}","\u{625d}"],
["\u{62b1}","\u{62b1}","\u{62b1}","\u{62b1}"],
["\u{62d4}","\u{62d4}","\u{62d4}","\u{62d4}"],
["\u{6350}","\u{6350}","\u{6350}","\u{6350}"],
["\u{22b0c}","\u{22b0c}","\u{22b0c}","\u{22b0c}"],
["\u{633d}","\u{633d}","\u{633d}","\u{633d}"],
["\u{62fc}","\u{62fc}","\u{62fc}","\u{62fc}"],
["\u{6368}","\u{6368}","\u{6368}","\u{6368}"],
["\u{6383}","\u{6383}","\u{6383}","\u{6383}"],
["\u{63e4}","\u{63e4}","\u{63e4}","\u{63e4}"],
["\u{22bf1}","\u{22bf1}","\u{22bf1}","\u{22bf1}"],
["\u{6422}","\u{6422}","\u{6422}","\u{6422}"],
["\u{63c5}","\u{63c5}","\u{63c5}","\u{63c5}"],
["\u{63a9}","\u{63a9}","\u{63a9}","\u{63a9}"],
["\u{3a2e}","\u{3a2e}","\u{3a2e}","\u{3a2e}"],
["\u{6469}","\u{6469}","\u{6469}","\u{6469}"],
["\u{647e}","\u{647e}","\u{647e}","\u{647e}"],
["\u{649d}","\u{649d}","\u{649d}","\u{649d}"],
["\u{6477}","\u{6477}","\u{6477}","\u{6477}"],
["\u{3a6c}","\u{3a6c}","\u{3a6c}","\u{3a6c}"],
["\u{654f}","\u{654f}","\u{654f}","\u{654f}"],
["\u{656c}","\u{656c}","\u{656c}","\u{656c}"],
["\u{2300a}","\u{2300a}","\u{2300a}","\u{2300a}"],
["\u{65e3}","\u{65e3}","\u{65e3}","\u{65e3}"],
["\u{66f8}","\u{66f8}","\u{66f8}","\u{66f8}"],
["\u{6649}","\u{6649}","\u{6649}","\u{6649}"],
["\u{3b19}","\u{3b19}","\u{3b19}","\u{3b19}"],
["\u{6691}","\u{6691}","\u{6691}","\u{6691}"],
["\u{3b08}","\u{3b08}","\u{3b08}","\u{3b08}"],
["\u{3ae4}","\u{3ae4}","\u{3ae4}","\u{3ae4}"],
["\u{5192}","\u{5192}","\u{5192}","\u{5192}"],
["\u{5195}","\u{5195}","\u{5195}","\u{5195}"],
["\u{6700}","\u{6700}","\u{6700}","\u{6700}"],
["\u{669c}","\u{669c}","\u{669c}","\u{669c}"],
["\u{80ad}","\u{80ad}","\u{80ad}","\u{80ad}"],
["\u{43d9}","\u{43d9}","\u{43d9}","\u{43d9}"],
["\u{6717}","\u{6717}","\u{6717}","\u{6717}"],
["\u{671b}","\u{671b}","\u{671b}","\u{671b}"],
["\u{6721}","\u{6721}","\u{6721}","\u{6721}"],
["\u{675e}","\u{675e}","\u{675e}","\u{675e}"],
["\u{6753}","\u{6753}","\u{6753}","\u{6753}"],
["\u{233c3}","\u{233c3}","\u{233c3}","\u{233c3}"],
["\u{3b49}","\u{3b49}","\u{3b49}","\u{3b49}"],
["\u{67fa}","\u{67fa}","\u{67fa}","\u{67fa}"],
["\u{6785}","\u{6785}","\u{6785}","\u{6785}"],
["\u{6852}","\u{6852}","\u{6852}","\u{6852}"],
["\u{6885}","\u{6885}","\u{6885}","\u{6885}"],
["\u{2346d}","\u{2346d}","\u{2346d}","\u{2346d}"],
["\u{688e}","\u{688e}","\u{688e}","\u{688e}"],
["\u{681f}","\u{681f}","\u{681f}","\u{681f}"],
["\u{6914}","\u{6914}","\u{6914}","\u{6914}"],
["\u{3b9d}","\u{3b9d}","\u{3b9d}","\u{3b9d}"],
["\u{6942}","\u{6942}","\u{6942}","\u{6942}"],
["\u{69a3}","\u{69a3}","\u{69a3}","\u{69a3}"],
["\u{69ea}","\u{69ea}","\u{69ea}","\u{69ea}"],
["\u{6aa8}","\u{6aa8}","\u{6aa8}","\u{6aa8}"],
["\u{236a3}","\u{236a3}","\u{236a3}","\u{236a3}"],
["\u{6adb}","\u{6adb}","\u{6adb}","\u{6adb}"],
["\u{3c18}","\u{3c18}","\u{3c18}","\u{3c18}"],
["\u{6b21}","\u{6b21}","\u{6b21}","\u{6b21}"],
["\u{238a7}","\u{238a7}","\u{238a7}","\u{238a7}"],
["\u{6b54}","\u{6b54}","\u{6b54}","\u{6b54}"],
["\u{3c4e}","\u{3c4e}","\u{3c4e}","\u{3c4e}"],
["\u{6b72}","\u{6b72}","\u{6b72}","\u{6b72}"],
["\u{6b9f}","\u{6b9f}","\u{6b9f}","\u{6b9f}"],
["\u{6bba}","\u{6bba}","\u{6bba}","\u{6bba}"],
["\u{6bbb}","\u{6bbb}","\u{6bbb}","\u{6bbb}"],
["\u{23a8d}","\u{23a8d}","\u{23a8d}","\u{23a8d}"],
["\u{21d0b}","\u{21d0b}","\u{21d0b}","\u{21d0b}"],
["\u{23afa}","\u{23afa}","\u{23afa}","\u{23afa}"],
["\u{6c4e}","\u{6c4e}","\u{6c4e}","\u{6c4e}"],
["\u{23cbc}","\u{23cbc}","\u{23cbc}","\u{23cbc}"],
["\u{6cbf}","\u{6cbf}","\u{6cbf}","\u{6cbf}"],
["\u{6ccd}","\u{6ccd}","\u{6ccd}","\u{6ccd}"],
["\u{6c67}","\u{6c67}","\u{6c67}","\u{6c67}"],
["\u{6d16}","\u{6d16}","\u{6d16}","\u{6d16}"],
["\u{6d3e}","\u{6d3e}","\u{6d3e}","\u{6d3e}"],
["\u{6d77}","\u{6d77}","\u{6d77}","\u{6d77}"],
["\u{6d41}","\u{6d41}","\u{6d41}","\u{6d41}"],
["\u{6d69}","\u{6d69}","\u{6d69}","\u{6d69}"],
["\u{6d78}","\u{6d78}","\u{6d78}","\u{6d78}"],
["\u{6d85}","\u{6d85}","\u{6d85}","\u{6d85}"],
["\u{23d1e}","\u{23d1e}","\u{23d1e}","\u{23d1e}"],
["\u{6d34}","\u{6d34}","\u{6d34}","\u{6d34}"],
["\u{6e2f}","\u{6e2f}","\u{6e2f}","\u{6e2f}"],
["\u{6e6e}","\u{6e6e}","\u{6e6e}","\u{6e6e}"],
["\u{3d33}","\u{3d33}","\u{3d33}","\u{3d33}"],
["\u{6ecb}","\u{6ecb}","\u{6ecb}","\u{6ecb}"],
["\u{6ec7}","\u{6ec7}","\u{6ec7}","\u{6ec7}"],
["\u{23ed1}","\u{23ed1}","\u{23ed1}","\u{23ed1}"],
["\u{6df9}","\u{6df9}","\u{6df9}","\u{6df9}"],
["\u{6f6e}","\u{6f6e}","\u{6f6e}","\u{6f6e}"],
["\u{23f5e}","\u{23f5e}","\u{23f5e}","\u{23f5e}"],
["\u{23f8e}","\u{23f8e}","\u{23f8e}","\u{23f8e}"],
["\u{6fc6}","\u{6fc6}","\u{6fc6}","\u{6fc6}"],
["\u{7039}","\u{7039}","\u{7039}","\u{7039}"],
["\u{701e}","\u{701e}","\u{701e}","\u{701e}"],
["\u{701b}","\u{701b}","\u{701b}","\u{701b}"],
["\u{3d96}","\u{3d96}","\u{3d96}","\u{3d96}"],
["\u{704a}","\u{704a}","\u{704a}","\u{704a}"],
["\u{707d}","\u{707d}","\u{707d}","\u{707d}"],
["\u{7077}","\u{7077}","\u{7077}","\u{7077}"],
["\u{70ad}","\u{70ad}","\u{70ad}","\u{70ad}"],
["\u{20525}","\u{20525}","\u{20525}","\u{20525}"],
["\u{7145}","\u{7145}","\u{7145}","\u{7145}"],
["\u{24263}","\u{24263}","\u{24263}","\u{24263}"],
["\u{719c}","\u{719c}","\u{719c}","\u{719c}"],
["\u{243ab}","\u{243ab}","\u{243ab}","\u{243ab}"],
["\u{7228}","\u{7228}","\u{7228}","\u{7228}"],
["\u{7235}","\u{7235}","\u{7235}","\u{7235}"],
["\u{7250}","\u{7250}","\u{7250}","\u{7250}"],
["\u{24608}","\u{24608}","\u{24608}","\u{24608}"],
["\u{7280}","\u{7280}","\u{7280}","\u{7280}"],
["\u{7295}","\u{7295}","\u{7295}","\u{7295}"],
["\u{24735}","\u{24735}","\u{24735}","\u{24735}"],
["\u{24814}","\u{24814}","\u{24814}","\u{24814}"],
["\u{737a}","\u{737a}","\u{737a}","\u{737a}"],
["\u{738b}","\u{738b}","\u{738b}","\u{738b}"],
["\u{3eac}","\u{3eac}","\u{3eac}","\u{3eac}"],
["\u{73a5}","\u{73a5}","\u{73a5}","\u{73a5}"],
["\u{3eb8}","\u{3eb8}","\u{3eb8}","\u{3eb8}"],
["\u{3eb8}","\u{3eb8}","\u{3eb8}","\u{3eb8}"],
["\u{7447}","\u{7447}","\u{7447}","\u{7447}"],
["\u{745c}","\u{745c}","\u{745c}","\u{745c}"],
["\u{7471}","\u{7471}","\u{7471}","\u{7471}"],
["\u{7485}","\u{7485}","\u{7485}","\u{7485}"],
["\u{74ca}","\u{74ca}","\u{74ca}","\u{74ca}"],
["\u{3f1b}","\u{3f1b}","\u{3f1b}","\u{3f1b}"],
["\u{7524}","\u{7524}","\u{7524}","\u{7524}"],
["\u{24c36}","\u{24c36}","\u{24c36}","\u{24c36}"],
["\u{753e}","\u{753e}","\u{753e}","\u{753e}"],
["\u{24c92}","\u{24c92}","\u{24c92}","\u{24c92}"],
["\u{7570}","\u{7570}","\u{7570}","\u{7570}"],
["\u{2219f}","\u{2219f}","\u{2219f}","\u{2219f}"],
["\u{7610}","\u{7610}","\u{7610}","\u{7610}"],
["\u{24fa1}","\u{24fa1}","\u{24fa1}","\u{24fa1}"],
["\u{24fb8}","\u{24fb8}","\u{24fb8}","\u{24fb8}"],
["\u{25044}","\u{25044}","\u{25044}","\u{25044}"],
["\u{3ffc}","\u{3ffc}","\u{3ffc}","\u{3ffc}"],
["\u{4008}","\u{4008}","\u{4008}","\u{4008}"],
["\u{76f4}","\u{76f4}","\u{76f4}","\u{76f4}"],
["\u{250f3}","\u{250f3}","\u{250f3}","\u{250f3}"],
["\u{250f2}","\u{250f2}","\u{250f2}","\u{250f2}"],
["\u{25119}","\u{25119}","\u{25119}","\u{25119}"],
["\u{25133}","\u{25133}","\u{25133}","\u{25133}"],
["\u{771e}","\u{771e}","\u{771e}","\u{771e}"],
["\u{771f}","\u{771f}","\u{771f}","\u{771f}"],
["\u{771f}","\u{771f}","\u{771f}","\u{771f}"],
["\u{774a}","\u{774a}","\u{774a}","\u{774a}"],
["\u{4039}","\u{4039}","\u{4039}","\u{4039}"],
["\u{778b}","\u{778b}","\u{778b}","\u{778b}"],
["\u{4046}","\u{4046}","\u{4046}","\u{4046}"],
["\u{4096}","\u{4096}","\u{4096}","\u{4096}"],
["\u{2541d}","\u{2541d}","\u{2541d}","\u{2541d}"],
["\u{784e}","\u{784e}","\u{784e}","\u{784e}"],
["\u{788c}","\u{788c}","\u{788c}","\u{788c}"],
["\u{78cc}","\u{78cc}","\u{78cc}","\u{78cc}"],
["\u{40e3}","\u{40e3}","\u{40e3}","\u{40e3}"],
["\u{25626}","\u{25626}","\u{25626}","\u{25626}"],
["\u{7956}","\u{7956}","\u{7956}","\u{7956}"],
["\u{2569a}","\u{2569a}","\u{2569a}","\u{2569a}"],
["\u{256c5}","\u{256c5}","\u{256c5}","\u{256c5}"],
["\u{798f}","\u{798f}","\u{798f}","\u{798f}"],
["\u{79eb}","\u{79eb}","\u{79eb}","\u{79eb}"],
["\u{412f}","\u{412f}","\u{412f}","\u{412f}"],
["\u{7a40}","\u{7a40}","\u{7a40}","\u{7a40}"],
["\u{7a4a}","\u{7a4a}","\u{7a4a}","\u{7a4a}"],
["\u{7a4f}","\u{7a4f}","\u{7a4f}","\u{7a4f}"],
["\u{2597c}","\u{2597c}","\u{2597c}","\u{2597c}"],
["\u{25aa7}","\u{25aa7}","\u{25aa7}","\u{25aa7}"],
["\u{25aa7}","\u{25aa7}","\u{25aa7}","\u{25aa7}"],
["\u{7aee}","\u{7aee}","\u{7aee}","\u{7aee}"],
["\u{4202}","\u{4202}","\u{4202}","\u{4202}"],
["\u{25bab}","\u{25bab}","\u{25bab}","\u{25bab}"],
["\u{7bc6}","\u{7bc6}","\u{7bc6}","\u{7bc6}"],
["\u{7bc9}","\u{7bc9}","\u{7bc9}","\u{7bc9}"],
["\u{4227}","\u{4227}","\u{4227}","\u{4227}"],
["\u{25c80}","\u{25c80}","\u{25c80}","\u{25c80}"],
["\u{7cd2}","\u{7cd2}","\u{7cd2}","\u{7cd2}"],
["\u{42a0}","\u{42a0}","\u{42a0}","\u{42a0}"],
["\u{7ce8}","\u{7ce8}","\u{7ce8}","\u{7ce8}"],
["\u{7ce3}","\u{7ce3}","\u{7ce3}","\u{7ce3}"],
["\u{7d00}","\u{7d00}","\u{7d00}","\u{7d00}"],
["\u{25f86}","\u{25f86}","\u{25f86}","\u{25f86}"],
["\u{7d63}","\u{7d63}","\u{7d63}","\u{7d63}"],
["\u{4301}","\u{4301}","\u{4301}","\u{4301}"],
["\u{7dc7}","\u{7dc7}","\u{7dc7}","\u{7dc7}"],
["\u{7e02}","\u{7e02}","\u{7e02}","\u{7e02}"],
["\u{7e45}","\u{7e45}","\u{7e45}","\u{7e45}"],
["\u{4334}","\u{4334}","\u{4334}","\u{4334}"],
["\u{26228}","\u{26228}","\u{26228}","\u{26228}"],
["\u{26247}","\u{26247}","\u{26247}","\u{26247}"],
["\u{4359}","\u{4359}","\u{4359}","\u{4359}"],
["\u{262d9}","\u{262d9}","\u{262d9}","\u{262d9}"],
["\u{7f7a}","\u{7f7a}","\u{7f7a}","\u{7f7a}"],
["\u{2633e}","\u{2633e}","\u{2633e}","\u{2633e}"],
["\u{7f95}","\u{7f95}","\u{7f95}","\u{7f95}"],
["\u{7ffa}","\u{7ffa}","\u{7ffa}","\u{7ffa}"],
["\u{8005}","\u{8005}","\u{8005}","\u{8005}"],
["\u{264da}","\u{264da}","\u{264da}","\u{264da}"],
["\u{26523}","\u{26523}","\u{26523}","\u{26523}"],
["\u{8060}","\u{8060}","\u{8060}","\u{8060}"],
["\u{265a8}","\u{265a8}","\u{265a8}","\u{265a8}"],
["\u{8070}","\u{8070}","\u{8070}","\u{8070}"],
["\u{2335f}","\u{2335f}","\u{2335f}","\u{2335f}"],
["\u{43d5}","\u{43d5}","\u{43d5}","\u{43d5}"],
["\u{80b2}","\u{80b2}","\u{80b2}","\u{80b2}"],
["\u{8103}","\u{8103}","\u{8103}","\u{8103}"],
["\u{440b}","\u{440b}","\u{440b}","\u{440b}"],
["\u{813e}","\u{813e}","\u{813e}","\u{813e}"],
["\u{5ab5}","\u{5ab5}","\u{5ab5}","\u{5ab5}"],
["\u{267a7}","\u{267a7}","\u{267a7}","\u{267a7}"],
["\u{267b5}","\u{267b5}","\u{267b5}","\u{267b5}"],
["\u{23393}","\u{23393}","\u{23393}","\u{23393}"],
["\u{2339c}","\u{2339c}","\u{2339c}","\u{2339c}"],
["\u{8201}","\u{8201}","\u{8201}","\u{8201}"],
["\u{8204}","\u{8204}","\u{8204}","\u{8204}"],
["\u{8f9e}","\u{8f9e}","\u{8f9e}","\u{8f9e}"],
["\u{446b}","\u{446b}","\u{446b}","\u{446b}"],
["\u{8291}","\u{8291}","\u{8291}","\u{8291}"],
["\u{828b}","\u{828b}","\u{828b}","\u{828b}"],
["\u{829d}","\u{829d}","\u{829d}","\u{829d}"],
["\u{52b3}","\u{52b3}","\u{52b3}","\u{52b3}"],
["\u{82b1}","\u{82b1}","\u{82b1}","\u{82b1}"],
["\u{82b3}","\u{82b3}","\u{82b3}","\u{82b3}"],
["\u{82bd}","\u{82bd}","\u{82bd}","\u{82bd}"],
["\u{82e6}","\u{82e6}","\u{82e6}","\u{82e6}"],
["\u{26b3c}","\u{26b3c}","\u{26b3c}","\u{26b3c}"],
["\u{82e5}","\u{82e5}","\u{82e5}","\u{82e5}"],
["\u{831d}","\u{831d}","\u{831d}","\u{831d}"],
["\u{8363}","\u{8363}","\u{8363}","\u{8363}"],
["\u{83ad}","\u{83ad}","\u{83ad}","\u{83ad}"],
["\u{8323}","\u{8323}","\u{8323}","\u{8323}"],
["\u{83bd}","\u{83bd}","\u{83bd}","\u{83bd}"],
["\u{83e7}","\u{83e7}","\u{83e7}","\u{83e7}"],
["\u{8457}","\u{8457}","\u{8457}","\u{8457}"],
["\u{8353}","\u{8353}","\u{8353}","\u{8353}"],
["\u{83ca}","\u{83ca}","\u{83ca}","\u{83ca}"],
["\u{83cc}","\u{83cc}","\u{83cc}","\u{83cc}"],
["\u{83dc}","\u{83dc}","\u{83dc}","\u{83dc}"],
["\u{26c36}","\u{26c36}","\u{26c36}","\u{26c36}"],
["\u{26d6b}","\u{26d6b}","\u{26d6b}","\u{26d6b}"],
["\u{26cd5}","\u{26cd5}","\u{26cd5}","\u{26cd5}"],
["\u{452b}","\u{452b}","\u{452b}","\u{452b}"],
["\u{84f1}","\u{84f1}","\u{84f1}","\u{84f1}"],
["\u{84f3}","\u{84f3}","\u{84f3}","\u{84f3}"],
["\u{8516}","\u{8516}","\u{8516}","\u{8516}"],
["\u{273ca}","\u{273ca}","\u{273ca}","\u{273ca}"],
["\u{8564}","\u{8564}","\u{8564}","\u{8564}"],
["\u{26f2c}","\u{26f2c}","\u{26f2c}","\u{26f2c}"],
["\u{455d}","\u{455d}","\u{455d}","\u{455d}"],
["\u{4561}","\u{4561}","\u{4561}","\u{4561}"],
["\u{26fb1}","\u{26fb1}","\u{26fb1}","\u{26fb1}"],
["\u{270d2}","\u{270d2}","\u{270d2}","\u{270d2}"],
["\u{456b}","\u{456b}","\u{456b}","\u{456b}"],
["\u{8650}","\u{8650}","\u{8650}","\u{8650}"],
["\u{865c}","\u{865c}","\u{865c}","\u{865c}"],
["\u{8667}","\u{8667}","\u{8667}","\u{8667}"],
["\u{8669}","\u{8669}","\u{8669}","\u{8669}"],
["\u{86a9}","\u{86a9}","\u{86a9}","\u{86a9}"],
["\u{8688}","\u{8688}","\u{8688}","\u{8688}"],
["\u{870e}","\u{870e}","\u{870e}","\u{870e}"],
["\u{86e2}","\u{86e2}","\u{86e2}","\u{86e2}"],
["\u{8779}","\u{8779}","\u{8779}","\u{8779}"],
["\u{8728}","\u{8728}","\u{8728}","\u{8728}"],
["\u{876b}","\u{876b}","\u{876b}","\u{876b}"],
["\u{8786}","\u{8786}","\u{8786}","\u{8786}"],
["\u{45d7}","\u{45d7}","\u{45d7}","\u{45d7}"],
["\u{87e1}","\u{87e1}","\u{87e1}","\u{87e1}"],
["\u{8801}","\u{8801}","\u{8801}","\u{8801}"],
["\u{45f9}","\u{45f9}","\u{45f9}","\u{45f9}"],
["\u{8860}","\u{8860}","\u{8860}","\u{8860}"],
["\u{8863}","\u{8863}","\u{8863}","\u{8863}"],
["\u{27667}","\u{27667}","\u{27667}","\u{27667}"],
["\u{88d7}","\u{88d7}","\u{88d7}","\u{88d7}"],
["\u{88de}","\u{88de}","\u{88de}","\u{88de}"],
["\u{4635}","\u{4635}","\u{4635}","\u{4635}"],
["\u{88fa}","\u{88fa}","\u{88fa}","\u{88fa}"],
["\u{34bb}","\u{34bb}","\u{34bb}","\u{34bb}"],
["\u{278ae}","\u{278ae}","\u{278ae}","\u{278ae}"],
["\u{27966}","\u{27966}","\u{27966}","\u{27966}"],
["\u{46be}","\u{46be}","\u{46be}","\u{46be}"],
["\u{46c7}","\u{46c7}","\u{46c7}","\u{46c7}"],
["\u{8aa0}","\u{8aa0}","\u{8aa0}","\u{8aa0}"],
["\u{8aed}","\u{8aed}","\u{8aed}","\u{8aed}"],
["\u{8b8a}","\u{8b8a}","\u{8b8a}","\u{8b8a}"],
["\u{8c55}","\u{8c55}","\u{8c55}","\u{8c55}"],
["\u{27ca8}","\u{27ca8}","\u{27ca8}","\u{27ca8}"],
["\u{8cab}","\u{8cab}","\u{8cab}","\u{8cab}"],
["\u{8cc1}","\u{8cc1}","\u{8cc1}","\u{8cc1}"],
["\u{8d1b}","\u{8d1b}","\u{8d1b}","\u{8d1b}"],
["\u{8d77}","\u{8d77}","\u{8d77}","\u{8d77}"],
["\u{27f2f}","\u{27f2f}","\u{27f2f}","\u{27f2f}"],
["\u{20804}","\u{20804}","\u{20804}","\u{20804}"],
["\u{8dcb}","\u{8dcb}","\u{8dcb}","\u{8dcb}"],
["\u{8dbc}","\u{8dbc}","\u{8dbc}","\u{8dbc}"],
["\u{8df0}","\u{8df0}","\u{8df0}","\u{8df0}"],
["\u{208de}","\u{208de}","\u{208de}","\u{208de}"],
["\u{8ed4}","\u{8ed4}","\u{8ed4}","\u{8ed4}"],
["\u{8f38}","\u{8f38}","\u{8f38}","\u{8f38}"],
["\u{285d2}","\u{285d2}","\u{285d2}","\u{285d2}"],
["\u{285ed}","\u{285ed}","\u{285ed}","\u{285ed}"],
["\u{9094}","\u{9094}","\u{9094}","\u{9094}"],
["\u{90f1}","\u{90f1}","\u{90f1}","\u{90f1}"],
["\u{9111}","\u{9111}","\u{9111}","\u{9111}"],
["\u{2872e}","\u{2872e}","\u{2872e}","\u{2872e}"],
["\u{911b}","\u{911b}","\u{911b}","\u{911b}"],
["\u{9238}","\u{9238}","\u{9238}","\u{9238}"],
["\u{92d7}","\u{92d7}","\u{92d7}","\u{92d7}"],
["\u{92d8}","\u{92d8}","\u{92d8}","\u{92d8}"],
["\u{927c}","\u{927c}","\u{927c}","\u{927c}"],
["\u{93f9}","\u{93f9}","\u{93f9}","\u{93f9}"],
["\u{9415}","\u{9415}","\u{9415}","\u{9415}"],
["\u{28bfa}","\u{28bfa}","\u{28bfa}","\u{28bfa}"],
["\u{958b}","\u{958b}","\u{958b}","\u{958b}"],
["\u{4995}","\u{4995}","\u{4995}","\u{4995}"],
["\u{95b7}","\u{95b7}","\u{95b7}","\u{95b7}"],
["\u{28d77}","\u{28d77}","\u{28d77}","\u{28d77}"],
["\u{49e6}","\u{49e6}","\u{49e6}","\u{49e6}"],
["\u{96c3}","\u{96c3}","\u{96c3}","\u{96c3}"],
["\u{5db2}","\u{5db2}","\u{5db2}","\u{5db2}"],
["\u{9723}","\u{9723}","\u{9723}","\u{9723}"],
["\u{29145}","\u{29145}","\u{29145}","\u{29145}"],
["\u{2921a}","\u{2921a}","\u{2921a}","\u{2921a}"],
["\u{4a6e}","\u{4a6e}","\u{4a6e}","\u{4a6e}"],
["\u{4a76}","\u{4a76}","\u{4a76}","\u{4a76}"],
["\u{97e0}","\u{97e0}","\u{97e0}","\u{97e0}"],
["\u{2940a}","\u{2940a}","\u{2940a}","\u{2940a}"],
["\u{4ab2}","\u{4ab2}","\u{4ab2}","\u{4ab2}"],
["\u{29496}","\u{29496}","\u{29496}","\u{29496}"],
["\u{980b}","\u{980b}","\u{980b}","\u{980b}"],
["\u{980b}","\u{980b}","\u{980b}","\u{980b}"],
["\u{9829}","\u{9829}","\u{9829}","\u{9829}"],
["\u{295b6}","\u{295b6}","\u{295b6}","\u{295b6}"],
["\u{98e2}","\u{98e2}","\u{98e2}","\u{98e2}"],
["\u{4b33}","\u{4b33}","\u{4b33}","\u{4b33}"],
["\u{9929}","\u{9929}","\u{9929}","\u{9929}"],
["\u{99a7}","\u{99a7}","\u{99a7}","\u{99a7}"],
["\u{99c2}","\u{99c2}","\u{99c2}","\u{99c2}"],
["\u{99fe}","\u{99fe}","\u{99fe}","\u{99fe}"],
["\u{4bce}","\u{4bce}","\u{4bce}","\u{4bce}"],
["\u{29b30}","\u{29b30}","\u{29b30}","\u{29b30}"],
["\u{9b12}","\u{9b12}","\u{9b12}","\u{9b12}"],
["\u{9c40}","\u{9c40}","\u{9c40}","\u{9c40}"],
["\u{9cfd}","\u{9cfd}","\u{9cfd}","\u{9cfd}"],
["\u{4cce}","\u{4cce}","\u{4cce}","\u{4cce}"],
["\u{4ced}","\u{4ced}","\u{4ced}","\u{4ced}"],
["\u{9d67}","\u{9d67}","\u{9d67}","\u{9d67}"],
["\u{2a0ce}","\u{2a0ce}","\u{2a0ce}","\u{2a0ce}"],
["\u{4cf8}","\u{4cf8}","\u{4cf8}","\u{4cf8}"],
["\u{2a105}","\u{2a105}","\u{2a105}","\u{2a105}"],
["\u{2a20e}","\u{2a20e}","\u{2a20e}","\u{2a20e}"],
["\u{2a291}","\u{2a291}","\u{2a291}","\u{2a291}"],
["\u{9ebb}","\u{9ebb}","\u{9ebb}","\u{9ebb}"],
["\u{4d56}","\u{4d56}","\u{4d56}","\u{4d56}"],
["\u{9ef9}","\u{9ef9}","\u{9ef9}","\u{9ef9}"],
["\u{9efe}","\u{9efe}","\u{9efe}","\u{9efe}"],
["\u{9f05}","\u{9f05}","\u{9f05}","\u{9f05}"],
["\u{9f0f}","\u{9f0f}","\u{9f0f}","\u{9f0f}"],
["\u{9f16}","\u{9f16}","\u{9f16}","\u{9f16}"],
["\u{9f3b}","\u{9f3b}","\u{9f3b}","\u{9f3b}"],
["\u{2a600}","\u{2a600}","\u{2a600}","\u{2a600}"],
    ]),
];
pub const MARKS: [&str; 10] = ["\u{300}", "\u{301}", "\u{302}", "\u{303}", "\u{308}", "\u{323}", "\u{327}", "\u{31b}", "\u{345}", "\u{20d2}"];
/// per mark (or pair of marks, first times count plus second), per letter A-z: NFC, NFD, NFKC, NFKD
pub const ONE: &[[[&str; 4]; 58]] = &[
[["\u{c0}","\u{41}\u{300}","\u{c0}","\u{41}\u{300}"],["\u{42}\u{300}","\u{42}\u{300}","\u{42}\u{300}","\u{42}\u{300}"],["\u{43}\u{300}","\u{43}\u{300}","\u{43}\u{300}","\u{43}\u{300}"],["\u{44}\u{300}","\u{44}\u{300}","\u{44}\u{300}","\u{44}\u{300}"],["\u{c8}","\u{45}\u{300}","\u{c8}","\u{45}\u{300}"],["\u{46}\u{300}","\u{46}\u{300}","\u{46}\u{300}","\u{46}\u{300}"],["\u{47}\u{300}","\u{47}\u{300}","\u{47}\u{300}","\u{47}\u{300}"],["\u{48}\u{300}","\u{48}\u{300}","\u{48}\u{300}","\u{48}\u{300}"],["\u{cc}","\u{49}\u{300}","\u{cc}","\u{49}\u{300}"],["\u{4a}\u{300}","\u{4a}\u{300}","\u{4a}\u{300}","\u{4a}\u{300}"],["\u{4b}\u{300}","\u{4b}\u{300}","\u{4b}\u{300}","\u{4b}\u{300}"],["\u{4c}\u{300}","\u{4c}\u{300}","\u{4c}\u{300}","\u{4c}\u{300}"],["\u{4d}\u{300}","\u{4d}\u{300}","\u{4d}\u{300}","\u{4d}\u{300}"],["\u{1f8}","\u{4e}\u{300}","\u{1f8}","\u{4e}\u{300}"],["\u{d2}","\u{4f}\u{300}","\u{d2}","\u{4f}\u{300}"],["\u{50}\u{300}","\u{50}\u{300}","\u{50}\u{300}","\u{50}\u{300}"],["\u{51}\u{300}","\u{51}\u{300}","\u{51}\u{300}","\u{51}\u{300}"],["\u{52}\u{300}","\u{52}\u{300}","\u{52}\u{300}","\u{52}\u{300}"],["\u{53}\u{300}","\u{53}\u{300}","\u{53}\u{300}","\u{53}\u{300}"],["\u{54}\u{300}","\u{54}\u{300}","\u{54}\u{300}","\u{54}\u{300}"],["\u{d9}","\u{55}\u{300}","\u{d9}","\u{55}\u{300}"],["\u{56}\u{300}","\u{56}\u{300}","\u{56}\u{300}","\u{56}\u{300}"],["\u{1e80}","\u{57}\u{300}","\u{1e80}","\u{57}\u{300}"],["\u{58}\u{300}","\u{58}\u{300}","\u{58}\u{300}","\u{58}\u{300}"],["\u{1ef2}","\u{59}\u{300}","\u{1ef2}","\u{59}\u{300}"],["\u{5a}\u{300}","\u{5a}\u{300}","\u{5a}\u{300}","\u{5a}\u{300}"],["\u{5b}\u{300}","\u{5b}\u{300}","\u{5b}\u{300}","\u{5b}\u{300}"],["\u{5c}\u{300}","\u{5c}\u{300}","\u{5c}\u{300}","\u{5c}\u{300}"],["\u{5d}\u{300}","\u{5d}\u{300}","\u{5d}\u{300}","\u{5d}\u{300}"],["\u{5e}\u{300}","\u{5e}\u{300}","\u{5e}\u{300}","\u{5e}\u{300}"],["\u{5f}\u{300}","\u{5f}\u{300}","\u{5f}\u{300}","\u{5f}\u{300}"],["\u{60}\u{300}","\u{60}\u{300}","\u{60}\u{300}","\u{60}\u{300}"],["\u{e0}","\u{61}\u{300}","\u{e0}","\u{61}\u{300}"],["\u{62}\u{300}","\u{62}\u{300}","\u{62}\u{300}","\u{62}\u{300}"],["\u{63}\u{300}","\u{63}\u{300}","\u{63}\u{300}","\u{63}\u{300}"],["\u{64}\u{300}","\u{64}\u{300}","\u{64}\u{300}","\u{64}\u{300}"],["\u{e8}","\u{65}\u{300}","\u{e8}","\u{65}\u{300}"],["\u{66}\u{300}","\u{66}\u{300}","\u{66}\u{300}","\u{66}\u{300}"],["\u{67}\u{300}","\u{67}\u{300}","\u{67}\u{300}","\u{67}\u{300}"],["\u{68}\u{300}","\u{68}\u{300}","\u{68}\u{300}","\u{68}\u{300}"],["\u{ec}","\u{69}\u{300}","\u{ec}","\u{69}\u{300}"],["\u{6a}\u{300}","\u{6a}\u{300}","\u{6a}\u{300}","\u{6a}\u{300}"],["\u{6b}\u{300}","\u{6b}\u{300}","\u{6b}\u{300}","\u{6b}\u{300}"],["\u{6c}\u{300}","\u{6c}\u{300}","\u{6c}\u{300}","\u{6c}\u{300}"],["\u{6d}\u{300}","\u{6d}\u{300}","\u{6d}\u{300}","\u{6d}\u{300}"],["\u{1f9}","\u{6e}\u{300}","\u{1f9}","\u{6e}\u{300}"],["\u{f2}","\u{6f}\u{300}","\u{f2}","\u{6f}\u{300}"],["\u{70}\u{300}","\u{70}\u{300}","\u{70}\u{300}","\u{70}\u{300}"],["\u{71}\u{300}","\u{71}\u{300}","\u{71}\u{300}","\u{71}\u{300}"],["\u{72}\u{300}","\u{72}\u{300}","\u{72}\u{300}","\u{72}\u{300}"],["\u{73}\u{300}","\u{73}\u{300}","\u{73}\u{300}","\u{73}\u{300}"],["\u{74}\u{300}","\u{74}\u{300}","\u{74}\u{300}","\u{74}\u{300}"],["\u{f9}","\u{75}\u{300}","\u{f9}","\u{75}\u{300}"],["\u{76}\u{300}","\u{76}\u{300}","\u{76}\u{300}","\u{76}\u{300}"],["\u{1e81}","\u{77}\u{300}","\u{1e81}","\u{77}\u{300}"],["\u{78}\u{300}","\u{78}\u{300}","\u{78}\u{300}","\u{78}\u{300}"],["\u{1ef3}","\u{79}\u{300}","\u{1ef3}","\u{79}\u{300}"],["\u{7a}\u{300}","\u{7a}\u{300}","\u{7a}\u{300}","\u{7a}\u{300}"]],
[["\u{c1}","\u{41}\u{301}","\u{c1}","\u{41}\u{301}"],["\u{42}\u{301}","\u{42}\u{301}","\u{42}\u{301}","\u{42}\u{301}"],["\u{106}","\u{43}\u{301}","\u{106}","\u{43}\u{301}"],["\u{44}\u{301}","\u{44}\u{301}","\u{44}\u{301}","\u{44}\u{301}"],["\u{c9}","\u{45}\u{301}","\u{c9}","\u{45}\u{301}"],["\u{46}\u{301}","\u{46}\u{301}","\u{46}\u{301}","\u{46}\u{301}"],["\u{1f4}","\u{47}\u{301}","\u{1f4}","\u{47}\u{301}"],["\u{48}\u{301}","\u{48}\u{301}","\u{48}\u{301}","\u{48}\u{301}"],["\u{cd}","\u{49}\u{301}","\u{cd}","\u{49}\u{301}"],["\u{4a}\u{301}","\u{4a}\u{301}","\u{4a}\u{301}","\u{4a}\u{301}"],["\u{1e30}","\u{4b}\u{301}","\u{1e30}","\u{4b}\u{301}"],["\u{139}","\u{4c}\u{301}","\u{139}","\u{4c}\u{301}"],["\u{1e3e}","\u{4d}\u{301}","\u{1e3e}","\u{4d}\u{301}"],["\u{143}","\u{4e}\u{301}","\u{143}","\u{4e}\u{301}"],["\u{d3}","\u{4f}\u{301}","\u{d3}","\u{4f}\u{301}"],["\u{1e54}","\u{50}\u{301}","\u{1e54}","\u{50}\u{301}"],["\u{51}\u{301}","\u{51}\u{301}","\u{51}\u{301}","\u{51}\u{301}"],["\u{154}","\u{52}\u{301}","\u{154}","\u{52}\u{301}"],["\u{15a}","\u{53}\u{301}","\u{15a}","\u{53}\u{301}"],["\u{54}\u{301}","\u{54}\u{301}","\u{54}\u{301}","\u{54}\u{301}"],["\u{da}","\u{55}\u{301}","\u{da}","\u{55}\u{301}"],["\u{56}\u{301}","\u{56}\u{301}","\u{56}\u{301}","\u{56}\u{301}"],["\u{1e82}","\u{57}\u{301}","\u{1e82}","\u{57}\u{301}"],["\u{58}\u{301}","\u{58}\u{301}","\u{58}\u{301}","\u{58}\u{301}"],["\u{dd}","\u{59}\u{301}","\u{dd}","\u{59}\u{301}"],["\u{179}","\u{5a}\u{301}","\u{179}","\u{5a}\u{301}"],["\u{5b}\u{301}","\u{5b}\u{301}","\u{5b}\u{301}","\u{5b}\u{301}"],["\u{5c}\u{301}","\u{5c}\u{301}","\u{5c}\u{301}","\u{5c}\u{301}"],["\u{5d}\u{301}","\u{5d}\u{301}","\u{5d}\u{301}","\u{5d}\u{301}"],["\u{5e}\u{301}","\u{5e}\u{301}","\u{5e}\u{301}","\u{5e}\u{301}"],["\u{5f}\u{301}","\u{5f}\u{301}","\u{5f}\u{301}","\u{5f}\u{301}"],["\u{60}\u{301}","\u{60}\u{301}","\u{60}\u{301}","\u{60}\u{301}"],["\u{e1}","\u{61}\u{301}","\u{e1}","\u{61}\u{301}"],["\u{62}\u{301}","\u{62}\u{301}","\u{62}\u{301}","\u{62}\u{301}"],["\u{107}","\u{63}\u{301}","\u{107}","\u{63}\u{301}"],["\u{64}\u{301}","\u{64}\u{301}","\u{64}\u{301}","\u{64}\u{301}"],["\u{e9}","\u{65}\u{301}","\u{e9}","\u{65}\u{301}"],["\u{66}\u{301}","\u{66}\u{301}","\u{66}\u{301}","\u{66}\u{301}"],["\u{1f5}","\u{67}\u{301}","\u{1f5}","\u{67}\u{301}"],["\u{68}\u{301}","\u{68}\u{301}","\u{68}\u{301}","\u{68}\u{301}"],["\u{ed}","\u{69}\u{301}","\u{ed}","\u{69}\u{301}"],["\u{6a}\u{301}","\u{6a}\u{301}","\u{6a}\u{301}","\u{6a}\u{301}"],["\u{1e31}","\u{6b}\u{301}","\u{1e31}","\u{6b}\u{301}"],["\u{13a}","\u{6c}\u{301}","\u{13a}","\u{6c}\u{301}"],["\u{1e3f}","\u{6d}\u{301}","\u{1e3f}","\u{6d}\u{301}"],["\u{144}","\u{6e}\u{301}","\u{144}","\u{6e}\u{301}"],["\u{f3}","\u{6f}\u{301}","\u{f3}","\u{6f}\u{301}"],["\u{1e55}","\u{70}\u{301}","\u{1e55}","\u{70}\u{301}"],["\u{71}\u{301}","\u{71}\u{301}","\u{71}\u{301}","\u{71}\u{301}"],["\u{155}","\u{72}\u{301}","\u{155}","\u{72}\u{301}"],["\u{15b}","\u{73}\u{301}","\u{15b}","\u{73}\u{301}"],["\u{74}\u{301}","\u{74}\u{301}","\u{74}\u{301}","\u{74}\u{301}"],["\u{fa}","\u{75}\u{301}","\u{fa}","\u{75}\u{301}"],["\u{76}\u{301}","\u{76}\u{301}","\u{76}\u{301}","\u{76}\u{301}"],["\u{1e83}","\u{77}\u{301}","\u{1e83}","\u{77}\u{301}"],["\u{78}\u{301}","\u{78}\u{301}","\u{78}\u{301}","\u{78}\u{301}"],["\u{fd}","\u{79}\u{301}","\u{fd}","\u{79}\u{301}"],["\u{17a}","\u{7a}\u{301}","\u{17a}","\u{7a}\u{301}"]],
[["\u{c2}","\u{41}\u{302}","\u{c2}","\u{41}\u{302}"],["\u{42}\u{302}","\u{42}\u{302}","\u{42}\u{302}","\u{42}\u{302}"],["\u{108}","\u{43}\u{302}","\u{108}","\u{43}\u{302}"],["\u{44}\u{302}","\u{44}\u{302}","\u{44}\u{302}","\u{44}\u{302}"],["\u{ca}","\u{45}\u{302}","\u{ca}","\u{45}\u{302}"],["\u{46}\u{302}","\u{46}\u{302}","\u{46}\u{302}","\u{46}\u{302}"],["\u{11c}","\u{47}\u{302}","\u{11c}","\u{47}\u{302}"],["\u{124}","\u{48}\u{302}","\u{124}","\u{48}\u{302}"],["\u{ce}","\u{49}\u{302}","\u{ce}","\u{49}\u{302}"],["\u{134}","\u{4a}\u{302}","\u{134}","\u{4a}\u{302}"],["\u{4b}\u{302}","\u{4b}\u{302}","\u{4b}\u{302}","\u{4b}\u{302}"],["\u{4c}\u{302}","\u{4c}\u{302}","\u{4c}\u{302}","\u{4c}\u{302}"],["\u{4d}\u{302}","\u{4d}\u{302}","\u{4d}\u{302}","\u{4d}\u{302}"],["\u{4e}\u{302}","\u{4e}\u{302}","\u{4e}\u{302}","\u{4e}\u{302}"],["\u{d4}","\u{4f}\u{302}","\u{d4}","\u{4f}\u{302}"],["\u{50}\u{302}","\u{50}\u{302}","\u{50}\u{302}","\u{50}\u{302}"],["\u{51}\u{302}","\u{51}\u{302}","\u{51}\u{302}","\u{51}\u{302}"],["\u{52}\u{302}","\u{52}\u{302}","\u{52}\u{302}","\u{52}\u{302}"],["\u{15c}","\u{53}\u{302}","\u{15c}","\u{53}\u{302}"],["\u{54}\u{302}","\u{54}\u{302}","\u{54}\u{302}","\u{54}\u{302}"],["\u{db}","\u{55}\u{302}","\u{db}","\u{55}\u{302}"],["\u{56}\u{302}","\u{56}\u{302}","\u{56}\u{302}","\u{56}\u{302}"],["\u{174}","\u{57}\u{302}","\u{174}","\u{57}\u{302}"],["\u{58}\u{302}","\u{58}\u{302}","\u{58}\u{302}","\u{58}\u{302}"],["\u{176}","\u{59}\u{302}","\u{176}","\u{59}\u{302}"],["\u{1e90}","\u{5a}\u{302}","\u{1e90}","\u{5a}\u{302}"],["\u{5b}\u{302}","\u{5b}\u{302}","\u{5b}\u{302}","\u{5b}\u{302}"],["\u{5c}\u{302}","\u{5c}\u{302}","\u{5c}\u{302}","\u{5c}\u{302}"],["\u{5d}\u{302}","\u{5d}\u{302}","\u{5d}\u{302}","\u{5d}\u{302}"],["\u{5e}\u{302}","\u{5e}\u{302}","\u{5e}\u{302}","\u{5e}\u{302}"],["\u{5f}\u{302}","\u{5f}\u{302}","\u{5f}\u{302}","\u{5f}\u{302}"],["\u{60}\u{302}","\u{60}\u{302}","\u{60}\u{302}","\u{60}\u{302}"],["\u{e2}","\u{61}\u{302}","\u{e2}","\u{61}\u{302}"],["\u{62}\u{302}","\u{62}\u{302}","\u{62}\u{302}","\u{62}\u{302}"],["\u{109}","\u{63}\u{302}","\u{109}","\u{63}\u{302}"],["\u{64}\u{302}","\u{64}\u{302}","\u{64}\u{302}","\u{64}\u{302}"],["\u{ea}","\u{65}\u{302}","\u{ea}","\u{65}\u{302}"],["\u{66}\u{302}","\u{66}\u{302}","\u{66}\u{302}","\u{66}\u{302}"],["\u{11d}","\u{67}\u{302}","\u{11d}","\u{67}\u{302}"],["\u{125}","\u{68}\u{302}","\u{125}","\u{68}\u{302}"],["\u{ee}","\u{69}\u{302}","\u{ee}","\u{69}\u{302}"],["\u{135}","\u{6a}\u{302}","\u{135}","\u{6a}\u{302}"],["\u{6b}\u{302}","\u{6b}\u{302}","\u{6b}\u{302}","\u{6b}\u{302}"],["\u{6c}\u{302}","\u{6c}\u{302}","\u{6c}\u{302}","\u{6c}\u{302}"],["\u{6d}\u{302}","\u{6d}\u{302}","\u{6d}\u{302}","\u{6d}\u{302}"],["\u{6e}\u{302}","\u{6e}\u{302}","\u{6e}\u{302}","\u{6e}\u{302}"],["\u{f4}","\u{6f}\u{302}","\u{f4}","\u{6f}\u{302}"],["\u{70}\u{302}","\u{70}\u{302}","\u{70}\u{302}","\u{70}\u{302}"],["\u{71}\u{302}","\u{71}\u{302}","\u{71}\u{302}","\u{71}\u{302}"],["\u{72}\u{302}","\u{72}\u{302}","\u{72}\u{302}","\u{72}\u{302}"],["\u{15d}","\u{73}\u{302}","\u{15d}","\u{73}\u{302}"],["\u{74}\u{302}","\u{74}\u{302}","\u{74}\u{302}","\u{74}\u{302}"],["\u{fb}","\u{75}\u{302}","\u{fb}","\u{75}\u{302}"],["\u{76}\u{302}","\u{76}\u{302}","\u{76}\u{302}","\u{76}\u{302}"],["\u{175}","\u{77}\u{302}","\u{175}","\u{77}\u{302}"],["\u{78}\u{302}","\u{78}\u{302}","\u{78}\u{302}","\u{78}\u{302}"],["\u{177}","\u{79}\u{302}","\u{177}","\u{79}\u{302}"],["\u{1e91}","\u{7a}\u{302}","\u{1e91}","\u{7a}\u{302}"]],
[["\u{c3}","\u{41}\u{303}","\u{c3}","\u{41}\u{303}"],["\u{42}\u{303}","\u{42}\u{303}","\u{42}\u{303}","\u{42}\u{303}"],["\u{43}\u{303}","\u{43}\u{303}","\u{43}\u{303}","\u{43}\u{303}"],["\u{44}\u{303}","\u{44}\u{303}","\u{44}\u{303}","\u{44}\u{303}"],["\u{1ebc}","\u{45}\u{303}","\u{1ebc}","\u{45}\u{303}"],["\u{46}\u{303}","\u{46}\u{303}","\u{46}\u{303}","\u{46}\u{303}"],["\u{47}\u{303}","\u{47}\u{303}","\u{47}\u{303}","\u{47}\u{303}"],["\u{48}\u{303}","\u{48}\u{303}","\u{48}\u{303}","\u{48}\u{303}"],["\u{128}","\u{49}\u{303}","\u{128}","\u{49}\u{303}"],["\u{4a}\u{303}","\u{4a}\u{303}","\u{4a}\u{303}","\u{4a}\u{303}"],["\u{4b}\u{303}","\u{4b}\u{303}","\u{4b}\u{303}","\u{4b}\u{303}"],["\u{4c}\u{303}","\u{4c}\u{303}","\u{4c}\u{303}","\u{4c}\u{303}"],["\u{4d}\u{303}","\u{4d}\u{303}","\u{4d}\u{303}","\u{4d}\u{303}"],["\u{d1}","\u{4e}\u{303}","\u{d1}","\u{4e}\u{303}"],["\u{d5}","\u{4f}\u{303}","\u{d5}","\u{4f}\u{303}"],["\u{50}\u{303}","\u{50}\u{303}","\u{50}\u{303}","\u{50}\u{303}"],["\u{51}\u{303}","\u{51}\u{303}","\u{51}\u{303}","\u{51}\u{303}"],["\u{52}\u{303}","\u{52}\u{303}","\u{52}\u{303}","\u{52}\u{303}"],["\u{53}\u{303}","\u{53}\u{303}","\u{53}\u{303}","\u{53}\u{303}"],["\u{54}\u{303}","\u{54}\u{303}","\u{54}\u{303}","\u{54}\u{303}"],["\u{168}","\u{55}\u{303}","\u{168}","\u{55}\u{303}"],["\u{1e7c}","\u{56}\u{303}","\u{1e7c}","\u{56}\u{303}"],["\u{57}\u{303}","\u{57}\u{303}","\u{57}\u{303}","\u{57}\u{303}"],["\u{58}\u{303}","\u{58}\u{303}","\u{58}\u{303}","\u{58}\u{303}"],["\u{1ef8}","\u{59}\u{303}","\u{1ef8}","\u{59}\u{303}"],["\u{5a}\u{303}","\u{5a}\u{303}","\u{5a}\u{303}","\u{5a}\u{303}"],["\u{5b}\u{303}","\u{5b}\u{303}","\u{5b}\u{303}","\u{5b}\u{303}"],["\u{5c}\u{303}","\u{5c}\u{303}","\u{5c}\u{303}","\u{5c}\u{303}"],["\u{5d}\u{303}","\u{5d}\u{303}","\u{5d}\u{303}","\u{5d}\u{303}"],["\u{5e}\u{303}","\u{5e}\u{303}","\u{5e}\u{303}","\u{5e}\u{303}"],["\u{5f}\u{303}","\u{5f}\u{303}","\u{5f}\u{303}","\u{5f}\u{303}"],["\u{60}\u{303}","\u{60}\u{303}","\u{60}\u{303}","\u{60}\u{303}"],["\u{e3}","\u{61}\u{303}","\u{e3}","\u{61}\u{303}"],["\u{62}\u{303}","\u{62}\u{303}","\u{62}\u{303}","\u{62}\u{303}"],["\u{63}\u{303}","\u{63}\u{303}","\u{63}\u{303}","\u{63}\u{303}"],["\u{64}\u{303}","\u{64}\u{303}","\u{64}\u{303}","\u{64}\u{303}"],["\u{1ebd}","\u{65}\u{303}","\u{1ebd}","\u{65}\u{303}"],["\u{66}\u{303}","\u{66}\u{303}","\u{66}\u{303}","\u{66}\u{303}"],["\u{67}\u{303}","\u{67}\u{303}","\u{67}\u{303}","\u{67}\u{303}"],["\u{68}\u{303}","\u{68}\u{303}","\u{68}\u{303}","\u{68}\u{303}"],["\u{129}","\u{69}\u{303}","\u{129}","\u{69}\u{303}"],["\u{6a}\u{303}","\u{6a}\u{303}","\u{6a}\u{303}","\u{6a}\u{303}"],["\u{6b}\u{303}","\u{6b}\u{303}","\u{6b}\u{303}","\u{6b}\u{303}"],["\u{6c}\u{303}","\u{6c}\u{303}","\u{6c}\u{303}","\u{6c}\u{303}"],["\u{6d}\u{303}","\u{6d}\u{303}","\u{6d}\u{303}","\u{6d}\u{303}"],["\u{f1}","\u{6e}\u{303}","\u{f1}","\u{6e}\u{303}"],["\u{f5}","\u{6f}\u{303}","\u{f5}","\u{6f}\u{303}"],["\u{70}\u{303}","\u{70}\u{303}","\u{70}\u{303}","\u{70}\u{303}"],["\u{71}\u{303}","\u{71}\u{303}","\u{71}\u{303}","\u{71}\u{303}"],["\u{72}\u{303}","\u{72}\u{303}","\u{72}\u{303}","\u{72}\u{303}"],["\u{73}\u{303}","\u{73}\u{303}","\u{73}\u{303}","\u{73}\u{303}"],["\u{74}\u{303}","\u{74}\u{303}","\u{74}\u{303}","\u{74}\u{303}"],["\u{169}","\u{75}\u{303}","\u{169}","\u{75}\u{303}"],["\u{1e7d}","\u{76}\u{303}","\u{1e7d}","\u{76}\u{303}"],["\u{77}\u{303}","\u{77}\u{303}","\u{77}\u{303}","\u{77}\u{303}"],["\u{78}\u{303}","\u{78}\u{303}","\u{78}\u{303}","\u{78}\u{303}"],["\u{1ef9}","\u{79}\u{303}","\u{1ef9}","\u{79}\u{303}"],["\u{7a}\u{303}","\u{7a}\u{303}","\u{7a}\u{303}","\u{7a}\u{303}"]],
[["\u{c4}","\u{41}\u{308}","\u{c4}","\u{41}\u{308}"],["\u{42}\u{308}","\u{42}\u{308}","\u{42}\u{308}","\u{42}\u{308}"],["\u{43}\u{308}","\u{43}\u{308}","\u{43}\u{308}","\u{43}\u{308}"],["\u{44}\u{308}","\u{44}\u{308}","\u{44}\u{308}","\u{44}\u{308}"],["\u{cb}","\u{45}\u{308}","\u{cb}","\u{45}\u{308}"],["\u{46}\u{308}","\u{46}\u{308}","\u{46}\u{308}","\u{46}\u{308}"],["\u{47}\u{308}","\u{47}\u{308}","\u{47}\u{308}","\u{47}\u{308}"],["\u{1e26}","\u{48}\u{308}","\u{1e26}","\u{48}\u{308}"],["\u{cf}","\u{49}\u{308}","\u{cf}","\u{49}\u{308}"],["\u{4a}\u{308}","\u{4a}\u{308}","\u{4a}\u{308}","\u{4a}\u{308}"],["\u{4b}\u{308}","\u{4b}\u{308}","\u{4b}\u{308}","\u{4b}\u{308}"],["\u{4c}\u{308}","\u{4c}\u{308}","\u{4c}\u{308}","\u{4c}\u{308}"],["\u{4d}\u{308}","\u{4d}\u{308}","\u{4d}\u{308}","\u{4d}\u{308}"],["\u{4e}\u{308}","\u{4e}\u{308}","\u{4e}\u{308}","\u{4e}\u{308}"],["\u{d6}","\u{4f}\u{308}","\u{d6}","\u{4f}\u{308}"],["\u{50}\u{308}","\u{50}\u{308}","\u{50}\u{308}","\u{50}\u{308}"],["\u{51}\u{308}","\u{51}\u{308}","\u{51}\u{308}","\u{51}\u{308}"],["\u{52}\u{308}","\u{52}\u{308}","\u{52}\u{308}","\u{52}\u{308}"],["\u{53}\u{308}","\u{53}\u{308}","\u{53}\u{308}","\u{53}\u{308}"],["\u{54}\u{308}","\u{54}\u{308}","\u{54}\u{308}","\u{54}\u{308}"],["\u{dc}","\u{55}\u{308}","\u{dc}","\u{55}\u{308}"],["\u{56}\u{308}","\u{56}\u{308}","\u{56}\u{308}","\u{56}\u{308}"],["\u{1e84}","\u{57}\u{308}","\u{1e84}","\u{57}\u{308}"],["\u{1e8c}","\u{58}\u{308}","\u{1e8c}","\u{58}\u{308}"],["\u{178}","\u{59}\u{308}","\u{178}","\u{59}\u{308}"],["\u{5a}\u{308}","\u{5a}\u{308}","\u{5a}\u{308}","\u{5a}\u{308}"],["\u{5b}\u{308}","\u{5b}\u{308}","\u{5b}\u{308}","\u{5b}\u{308}"],["\u{5c}\u{308}","\u{5c}\u{308}","\u{5c}\u{308}","\u{5c}\u{308}"],["\u{5d}\u{308}","\u{5d}\u{308}","\u{5d}\u{308}","\u{5d}\u{308}"],["\u{5e}\u{308}","\u{5e}\u{308}","\u{5e}\u{308}","\u{5e}\u{308}"],["\u{5f}\u{308}","\u{5f}\u{308}","\u{5f}\u{308}","\u{5f}\u{308}"],["\u{60}\u{308}","\u{60}\u{308}","\u{60}\u{308}","\u{60}\u{308}"],["\u{e4}","\u{61}\u{308}","\u{e4}","\u{61}\u{308}"],["\u{62}\u{308}","\u{62}\u{308}","\u{62}\u{308}","\u{62}\u{308}"],["\u{63}\u{308}","\u{63}\u{308}","\u{63}\u{308}","\u{63}\u{308}"],["\u{64}\u{308}","\u{64}\u{308}","\u{64}\u{308}","\u{64}\u{308}"],["\u{eb}","\u{65}\u{308}","\u{eb}","\u{65}\u{308}"],["\u{66}\u{308}","\u{66}\u{308}","\u{66}\u{308}","\u{66}\u{308}"],["\u{67}\u{308}","\u{67}\u{308}","\u{67}\u{308}","\u{67}\u{308}"],["\u{1e27}","\u{68}\u{308}","\u{1e27}","\u{68}\u{308}"],["\u{ef}","\u{69}\u{308}","\u{ef}","\u{69}\u{308}"],["\u{6a}\u{308}","\u{6a}\u{308}","\u{6a}\u{308}","\u{6a}\u{308}"],["\u{6b}\u{308}","\u{6b}\u{308}","\u{6b}\u{308}","\u{6b}\u{308}"],["\u{6c}\u{308}","\u{6c}\u{308}","\u{6c}\u{308}","\u{6c}\u{308}"],["\u{6d}\u{308}","\u{6d}\u{308}","\u{6d}\u{308}","\u{6d}\u{308}"],["\u{6e}\u{308}","\u{6e}\u{308}","\u{6e}\u{308}","\u{6e}\u{308}"],["\u{f6}","\u{6f}\u{308}","\u{f6}","\u{6f}\u{308}"],["\u{70}\u{308}","\u{70}\u{308}","\u{70}\u{308}","\u{70}\u{308}"],["\u{71}\u{308}","\u{71}\u{308}","\u{71}\u{308}","\u{71}\u{308}"],["\u{72}\u{308}","\u{72}\u{308}","\u{72}\u{308}","\u{72}\u{308}"],["\u{73}\u{308}","\u{73}\u{308}","\u{73}\u{308}","\u{73}\u{308}"],["\u{1e97}","\u{74}\u{308}","\u{1e97}","\u{74}\u{308}"],["\u{fc}","\u{75}\u{308}","\u{fc}","\u{75}\u{308}"],["\u{76}\u{308}","\u{76}\u{308}","\u{76}\u{308}","\u{76}\u{308}"],["\u{1e85}","\u{77}\u{308}","\u{1e85}","\u{77}\u{308}"],["\u{1e8d}","\u{78}\u{308}","\u{1e8d}","\u{78}\u{308}"],["\u{ff}","\u{79}\u{308}","\u{ff}","\u{79}\u{308}"],["\u{7a}\u{308}","\u{7a}\u{308}","\u{7a}\u{308}","\u{7a}\u{308}"]],
[["\u{1ea0}","\u{41}\u{323}","\u{1ea0}","\u{41}\u{323}"],["\u{1e04}","\u{42}\u{323}","\u{1e04}","\u{42}\u{323}"],["\u{43}\u{323}","\u{43}\u{323}","\u{43}\u{323}","\u{43}\u{323}"],["\u{1e0c}","\u{44}\u{323}","\u{1e0c}","\u{44}\u{323}"],["\u{1eb8}","\u{45}\u{323}","\u{1eb8}","\u{45}\u{323}"],["\u{46}\u{323}","\u{46}\u{323}","\u{46}\u{323}","\u{46}\u{323}"],["\u{47}\u{323}","\u{47}\u{323}","\u{47}\u{323}","\u{47}\u{323}"],["\u{1e24}","\u{48}\u{323}","\u{1e24}","\u{48}\u{323}"],["\u{1eca}","\u{49}\u{323}","\u{1eca}","\u{49}\u{323}"],["\u{4a}\u{323}","\u{4a}\u{323}","\u{4a}\u{323}","\u{4a}\u{323}"],["\u{1e32}","\u{4b}\u{323}","\u{1e32}","\u{4b}\u{323}"],["\u{1e36}","\u{4c}\u{323}","\u{1e36}","\u{4c}\u{323}"],["\u{1e42}","\u{4d}\u{323}","\u{1e42}","\u{4d}\u{323}"],["\u{1e46}","\u{4e}\u{323}","\u{1e46}","\u{4e}\u{323}"],["\u{1ecc}","\u{4f}\u{323}","\u{1ecc}","\u{4f}\u{323}"],["\u{50}\u{323}","\u{50}\u{323}","\u{50}\u{323}","\u{50}\u{323}"],["\u{51}\u{323}","\u{51}\u{323}","\u{51}\u{323}","\u{51}\u{323}"],["\u{1e5a}","\u{52}\u{323}","\u{1e5a}","\u{52}\u{323}"],["\u{1e62}","\u{53}\u{323}","\u{1e62}","\u{53}\u{323}"],["\u{1e6c}","\u{54}\u{323}","\u{1e6c}","\u{54}\u{323}"],["\u{1ee4}","\u{55}\u{323}","\u{1ee4}","\u{55}\u{323}"],["\u{1e7e}","\u{56}\u{323}","\u{1e7e}","\u{56}\u{323}"],["\u{1e88}","\u{57}\u{323}","\u{1e88}","\u{57}\u{323}"],["\u{58}\u{323}","\u{58}\u{323}","\u{58}\u{323}","\u{58}\u{323}"],["\u{1ef4}","\u{59}\u{323}","\u{1ef4}","\u{59}\u{323}"],["\u{1e92}","\u{5a}\u{323}","\u{1e92}","\u{5a}\u{323}"],["\u{5b}\u{323}","\u{5b}\u{323}","\u{5b}\u{323}","\u{5b}\u{323}"],["\u{5c}\u{323}","\u{5c}\u{323}","\u{5c}\u{323}","\u{5c}\u{323}"],["\u{5d}\u{323}","\u{5d}\u{323}","\u{5d}\u{323}","\u{5d}\u{323}"],["\u{5e}\u{323}","\u{5e}\u{323}","\u{5e}\u{323}","\u{5e}\u{323}"],["\u{5f}\u{323}","\u{5f}\u{323}","\u{5f}\u{323}","\u{5f}\u{323}"],["\u{60}\u{323}","\u{60}\u{323}","\u{60}\u{323}","\u{60}\u{323}"],["\u{1ea1}","\u{61}\u{323}","\u{1ea1}","\u{61}\u{323}"],["\u{1e05}","\u{62}\u{323}","\u{1e05}","\u{62}\u{323}"],["\u{63}\u{323}","\u{63}\u{323}","\u{63}\u{323}","\u{63}\u{323}"],["\u{1e0d}","\u{64}\u{323}","\u{1e0d}","\u{64}\u{323}"],["\u{1eb9}","\u{65}\u{323}","\u{1eb9}","\u{65}\u{323}"],["\u{66}\u{323}","\u{66}\u{323}","\u{66}\u{323}","\u{66}\u{323}"],["\u{67}\u{323}","\u{67}\u{323}","\u{67}\u{323}","\u{67}\u{323}"],["\u{1e25}","\u{68}\u{323}","\u{1e25}","\u{68}\u{323}"],["\u{1ecb}","\u{69}\u{323}","\u{1ecb}","\u{69}\u{323}"],["\u{6a}\u{323}","\u{6a}\u{323}","\u{6a}\u{323}","\u{6a}\u{323}"],["\u{1e33}","\u{6b}\u{323}","\u{1e33}","\u{6b}\u{323}"],["\u{1e37}","\u{6c}\u{323}","\u{1e37}","\u{6c}\u{323}"],["\u{1e43}","\u{6d}\u{323}","\u{1e43}","\u{6d}\u{323}"],["\u{1e47}","\u{6e}\u{323}","\u{1e47}","\u{6e}\u{323}"],["\u{1ecd}","\u{6f}\u{323}","\u{1ecd}","\u{6f}\u{323}"],["\u{70}\u{323}","\u{70}\u{323}","\u{70}\u{323}","\u{70}\u{323}"],["\u{71}\u{323}","\u{71}\u{323}","\u{71}\u{323}","\u{71}\u{323}"],["\u{1e5b}","\u{72}\u{323}","\u{1e5b}","\u{72}\u{323}"],["\u{1e63}","\u{73}\u{323}","\u{1e63}","\u{73}\u{323}"],["\u{1e6d}","\u{74}\u{323}","\u{1e6d}","\u{74}\u{323}"],["\u{1ee5}","\u{75}\u{323}","\u{1ee5}","\u{75}\u{323}"],["\u{1e7f}","\u{76}\u{323}","\u{1e7f}","\u{76}\u{323}"],["\u{1e89}","\u{77}\u{323}","\u{1e89}","\u{77}\u{323}"],["\u{78}\u{323}","\u{78}\u{323}","\u{78}\u{323}","\u{78}\u{323}"],["\u{1ef5}","\u{79}\u{323}","\u{1ef5}","\u{79}\u{323}"],["\u{1e93}","\u{7a}\u{323}","\u{1e93}","\u{7a}\u{323}"]],
[["\u{41}\u{327}","\u{41}\u{327}","\u{41}\u{327}","\u{41}\u{327}"],["\u{42}\u{327}","\u{42}\u{327}","\u{42}\u{327}","\u{42}\u{327}"],["\u{c7}","\u{43}\u{327}","\u{c7}","\u{43}\u{327}"],["\u{1e10}","\u{44}\u{327}","\u{1e10}","\u{44}\u{327}"],["\u{228}","\u{45}\u{327}","\u{228}","\u{45}\u{327}"],["\u{46}\u{327}","\u{46}\u{327}","\u{46}\u{327}","\u{46}\u{327}"],["\u{122}","\u{47}\u{327}","\u{122}","\u{47}\u{327}"],["\u{1e28}","\u{48}\u{327}","\u{1e28}","\u{48}\u{327}"],["\u{49}\u{327}","\u{49}\u{327}","\u{49}\u{327}","\u{49}\u{327}"],["\u{4a}\u{327}","\u{4a}\u{327}","\u{4a}\u{327}","\u{4a}\u{327}"],["\u{136}","\u{4b}\u{327}","\u{136}","\u{4b}\u{327}"],["\u{13b}","\u{4c}\u{327}","\u{13b}","\u{4c}\u{327}"],["\u{4d}\u{327}","\u{4d}\u{327}","\u{4d}\u{327}","\u{4d}\u{327}"],["\u{145}","\u{4e}\u{327}","\u{145}","\u{4e}\u{327}"],["\u{4f}\u{327}","\u{4f}\u{327}","\u{4f}\u{327}","\u{4f}\u{327}"],["\u{50}\u{327}","\u{50}\u{327}","\u{50}\u{327}","\u{50}\u{327}"],["\u{51}\u{327}","\u{51}\u{327}","\u{51}\u{327}","\u{51}\u{327}"],["\u{156}","\u{52}\u{327}","\u{156}","\u{52}\u{327}"],["\u{15e}","\u{53}\u{327}","\u{15e}","\u{53}\u{327}"],["\u{162}","\u{54}\u{327}","\u{162}","\u{54}\u{327}"],["\u{55}\u{327}","\u{55}\u{327}","\u{55}\u{327}","\u{55}\u{327}"],["\u{56}\u{327}","\u{56}\u{327}","\u{56}\u{327}","\u{56}\u{327}"],["\u{57}\u{327}","\u{57}\u{327}","\u{57}\u{327}","\u{57}\u{327}"],["\u{58}\u{327}","\u{58}\u{327}","\u{58}\u{327}","\u{58}\u{327}"],["\u{59}\u{327}","\u{59}\u{327}","\u{59}\u{327}","\u{59}\u{327}"],["\u{5a}\u{327}","\u{5a}\u{327}","\u{5a}\u{327}","\u{5a}\u{327}"],["\u{5b}\u{327}","\u{5b}\u{327}","\u{5b}\u{327}","\u{5b}\u{327}"],["\u{5c}\u{327}","\u{5c}\u{327}","\u{5c}\u{327}","\u{5c}\u{327}"],["\u{5d}\u{327}","\u{5d}\u{327}","\u{5d}\u{327}","\u{5d}\u{327}"],["\u{5e}\u{327}","\u{5e}\u{327}","\u{5e}\u{327}","\u{5e}\u{327}"],["\u{5f}\u{327}","\u{5f}\u{327}","\u{5f}\u{327}","\u{5f}\u{327}"],["\u{60}\u{327}","\u{60}\u{327}","\u{60}\u{327}","\u{60}\u{327}"],["\u{61}\u{327}","\u{61}\u{327}","\u{61}\u{327}","\u{61}\u{327}"],["\u{62}\u{327}","\u{62}\u{327}","\u{62}\u{327}","\u{62}\u{327}"],["\u{e7}","\u{63}\u{327}","\u{e7}","\u{63}\u{327}"],["\u{1e11}","\u{64}\u{327}","\u{1e11}","\u{64}\u{327}"],["\u{229}","\u{65}\u{327}","\u{229}","\u{65}\u{327}"],["\u{66}\u{327}","\u{66}\u{327}","\u{66}\u{327}","\u{66}\u{327}"],["\u{123}","\u{67}\u{327}","\u{123}","\u{67}\u{327}"],["\u{1e29}","\u{68}\u{327}","\u{1e29}","\u{68}\u{327}"],["\u{69}\u{327}","\u{69}\u{327}","\u{69}\u{327}","\u{69}\u{327}"],["\u{6a}\u{327}","\u{6a}\u{327}","\u{6a}\u{327}","\u{6a}\u{327}"],["\u{137}","\u{6b}\u{327}","\u{137}","\u{6b}\u{327}"],["\u{13c}","\u{6c}\u{327}","\u{13c}","\u{6c}\u{327}"],["\u{6d}\u{327}","\u{6d}\u{327}","\u{6d}\u{327}","\u{6d}\u{327}"],["\u{146}","\u{6e}\u{327}","\u{146}","\u{6e}\u{327}"],["\u{6f}\u{327}","\u{6f}\u{327}","\u{6f}\u{327}","\u{6f}\u{327}"],["\u{70}\u{327}","\u{70}\u{327}","\u{70}\u{327}","\u{70}\u{327}"],["\u{71}\u{327}","\u{71}\u{327}","\u{71}\u{327}","\u{71}\u{327}"],["\u{157}","\u{72}\u{327}","\u{157}","\u{72}\u{327}"],["\u{15f}","\u{73}\u{327}","\u{15f}","\u{73}\u{327}"],["\u{163}","\u{74}\u{327}","\u{163}","\u{74}\u{327}"],["\u{75}\u{327}","\u{75}\u{327}","\u{75}\u{327}","\u{75}\u{327}"],["\u{76}\u{327}","\u{76}\u{327}","\u{76}\u{327}","\u{76}\u{327}"],["\u{77}\u{327}","\u{77}\u{327}","\u{77}\u{327}","\u{77}\u{327}"],["\u{78}\u{327}","\u{78}\u{327}","\u{78}\u{327}","\u{78}\u{327}"],["\u{79}\u{327}","\u{79}\u{327}","\u{79}\u{327}","\u{79}\u{327}"],["\u{7a}\u{327}","\u{7a}\u{327}","\u{7a}\u{327}","\u{7a}\u{327}"]],
[["\u{41}\u{31b}","\u{41}\u{31b}","\u{41}\u{31b}","\u{41}\u{31b}"],["\u{42}\u{31b}","\u{42}\u{31b}","\u{42}\u{31b}","\u{42}\u{31b}"],["\u{43}\u{31b}","\u{43}\u{31b}","\u{43}\u{31b}","\u{43}\u{31b}"],["\u{44}\u{31b}","\u{44}\u{31b}","\u{44}\u{31b}","\u{44}\u{31b}"],["\u{45}\u{31b}","\u{45}\u{31b}","\u{45}\u{31b}","\u{45}\u{31b}"],["\u{46}\u{31b}","\u{46}\u{31b}","\u{46}\u{31b}","\u{46}\u{31b}"],["\u{47}\u{31b}","\u{47}\u{31b}","\u{47}\u{31b}","\u{47}\u{31b}"],["\u{48}\u{31b}","\u{48}\u{31b}","\u{48}\u{31b}","\u{48}\u{31b}"],["\u{49}\u{31b}","\u{49}\u{31b}","\u{49}\u{31b}","\u{49}\u{31b}"],["\u{4a}\u{31b}","\u{4a}\u{31b}","\u{4a}\u{31b}","\u{4a}\u{31b}"],["\u{4b}\u{31b}","\u{4b}\u{31b}","\u{4b}\u{31b}","\u{4b}\u{31b}"],["\u{4c}\u{31b}","\u{4c}\u{31b}","\u{4c}\u{31b}","\u{4c}\u{31b}"],["\u{4d}\u{31b}","\u{4d}\u{31b}","\u{4d}\u{31b}","\u{4d}\u{31b}"],["\u{4e}\u{31b}","\u{4e}\u{31b}","\u{4e}\u{31b}","\u{4e}\u{31b}"],["\u{1a0}","\u{4f}\u{31b}","\u{1a0}","\u{4f}\u{31b}"],["\u{50}\u{31b}","\u{50}\u{31b}","\u{50}\u{31b}","\u{50}\u{31b}"],["\u{51}\u{31b}","\u{51}\u{31b}","\u{51}\u{31b}","\u{51}\u{31b}"],["\u{52}\u{31b}","\u{52}\u{31b}","\u{52}\u{31b}","\u{52}\u{31b}"],["\u{53}\u{31b}","\u{53}\u{31b}","\u{53}\u{31b}","\u{53}\u{31b}"],["\u{54}\u{31b}","\u{54}\u{31b}","\u{54}\u{31b}","\u{54}\u{31b}"],["\u{1af}","\u{55}\u{31b}","\u{1af}","\u{55}\u{31b}"],["\u{56}\u{31b}","\u{56}\u{31b}","\u{56}\u{31b}","\u{56}\u{31b}"],["\u{57}\u{31b}","\u{57}\u{31b}","\u{57}\u{31b}","\u{57}\u{31b}"],["\u{58}\u{31b}","\u{58}\u{31b}","\u{58}\u{31b}","\u{58}\u{31b}"],["\u{59}\u{31b}","\u{59}\u{31b}","\u{59}\u{31b}","\u{59}\u{31b}"],["\u{5a}\u{31b}","\u{5a}\u{31b}","\u{5a}\u{31b}","\u{5a}\u{31b}"],["\u{5b}\u{31b}","\u{5b}\u{31b}","\u{5b}\u{31b}","\u{5b}\u{31b}"],["\u{5c}\u{31b}","\u{5c}\u{31b}","\u{5c}\u{31b}","\u{5c}\u{31b}"],["\u{5d}\u{31b}","\u{5d}\u{31b}","\u{5d}\u{31b}","\u{5d}\u{31b}"],["\u{5e}\u{31b}","\u{5e}\u{31b}","\u{5e}\u{31b}","\u{5e}\u{31b}"],["\u{5f}\u{31b}","\u{5f}\u{31b}","\u{5f}\u{31b}","\u{5f}\u{31b}"],["\u{60}\u{31b}","\u{60}\u{31b}","\u{60}\u{31b}","\u{60}\u{31b}"],["\u{61}\u{31b}","\u{61}\u{31b}","\u{61}\u{31b}","\u{61}\u{31b}"],["\u{62}\u{31b}","\u{62}\u{31b}","\u{62}\u{31b}","\u{62}\u{31b}"],["\u{63}\u{31b}","\u{63}\u{31b}","\u{63}\u{31b}","\u{63}\u{31b}"],["\u{64}\u{31b}","\u{64}\u{31b}","\u{64}\u{31b}","\u{64}\u{31b}"],["\u{65}\u{31b}","\u{65}\u{31b}","\u{65}\u{31b}","\u{65}\u{31b}"],["\u{66}\u{31b}","\u{66}\u{31b}","\u{66}\u{31b}","\u{66}\u{31b}"],["\u{67}\u{31b}","\u{67}\u{31b}","\u{67}\u{31b}","\u{67}\u{31b}"],["\u{68}\u{31b}","\u{68}\u{31b}","\u{68}\u{31b}","\u{68}\u{31b}"],["\u{69}\u{31b}","\u{69}\u{31b}","\u{69}\u{31b}","\u{69}\u{31b}"],["\u{6a}\u{31b}","\u{6a}\u{31b}","\u{6a}\u{31b}","\u{6a}\u{31b}"],["\u{6b}\u{31b}","\u{6b}\u{31b}","\u{6b}\u{31b}","\u{6b}\u{31b}"],["\u{6c}\u{31b}","\u{6c}\u{31b}","\u{6c}\u{31b}","\u{6c}\u{31b}"],["\u{6d}\u{31b}","\u{6d}\u{31b}","\u{6d}\u{31b}","\u{6d}\u{31b}"],["\u{6e}\u{31b}","\u{6e}\u{31b}","\u{6e}\u{31b}","\u{6e}\u{31b}"],["\u{1a1}","\u{6f}\u{31b}","\u{1a1}","\u{6f}\u{31b}"],["\u{70}\u{31b}","\u{70}\u{31b}","\u{70}\u{31b}","\u{70}\u{31b}"],["\u{71}\u{31b}","\u{71}\u{31b}","\u{71}\u{31b}","\u{71}\u{31b}"],["\u{72}\u{31b}","\u{72}\u{31b}","\u{72}\u{31b}","\u{72}\u{31b}"],["\u{73}\u{31b}","\u{73}\u{31b}","\u{73}\u{31b}","\u{73}\u{31b}"],["\u{74}\u{31b}","\u{74}\u{31b}","\u{74}\u{31b}","\u{74}\u{31b}"],["\u{1b0}","\u{75}\u{31b}","\u{1b0}","\u{75}\u{31b}"],["\u{76}\u{31b}","\u{76}\u{31b}","\u{76}\u{31b}","\u{76}\u{31b}"],["\u{77}\u{31b}","\u{77}\u{31b}","\u{77}\u{31b}","\u{77}\u{31b}"],["\u{78}\u{31b}","\u{78}\u{31b}","\u{78}\u{31b}","\u{78}\u{31b}"],["\u{79}\u{31b}","\u{79}\u{31b}","\u{79}\u{31b}","\u{79}\u{31b}"],["\u{7a}\u{31b}","\u{7a}\u{31b}","\u{7a}\u{31b}","\u{7a}\u{31b}"]],
[["\u{41}\u{345}","\u{41}\u{345}","\u{41}\u{345}","\u{41}\u{345}"],["\u{42}\u{345}","\u{42}\u{345}","\u{42}\u{345}","\u{42}\u{345}"],["\u{43}\u{345}","\u{43}\u{345}","\u{43}\u{345}","\u{43}\u{345}"],["\u{44}\u{345}","\u{44}\u{345}","\u{44}\u{345}","\u{44}\u{345}"],["\u{45}\u{345}","\u{45}\u{345}","\u{45}\u{345}","\u{45}\u{345}"],["\u{46}\u{345}","\u{46}\u{345}","\u{46}\u{345}","\u{46}\u{345}"],["\u{47}\u{345}","\u{47}\u{345}","\u{47}\u{345}","\u{47}\u{345}"],["\u{48}\u{345}","\u{48}\u{345}","\u{48}\u{345}","\u{48}\u{345}"],["\u{49}\u{345}","\u{49}\u{345}","\u{49}\u{345}","\u{49}\u{345}"],["\u{4a}\u{345}","\u{4a}\u{345}","\u{4a}\u{345}","\u{4a}\u{345}"],["\u{4b}\u{345}","\u{4b}\u{345}","\u{4b}\u{345}","\u{4b}\u{345}"],["\u{4c}\u{345}","\u{4c}\u{345}","\u{4c}\u{345}","\u{4c}\u{345}"],["\u{4d}\u{345}","\u{4d}\u{345}","\u{4d}\u{345}","\u{4d}\u{345}"],["\u{4e}\u{345}","\u{4e}\u{345}","\u{4e}\u{345}","\u{4e}\u{345}"],["\u{4f}\u{345}","\u{4f}\u{345}","\u{4f}\u{345}","\u{4f}\u{345}"],["\u{50}\u{345}","\u{50}\u{345}","\u{50}\u{345}","\u{50}\u{345}"],["\u{51}\u{345}","\u{51}\u{345}","\u{51}\u{345}","\u{51}\u{345}"],["\u{52}\u{345}","\u{52}\u{345}","\u{52}\u{345}","\u{52}\u{345}"],["\u{53}\u{345}","\u{53}\u{345}","\u{53}\u{345}","\u{53}\u{345}"],["\u{54}\u{345}","\u{54}\u{345}","\u{54}\u{345}","\u{54}\u{345}"],["\u{55}\u{345}","\u{55}\u{345}","\u{55}\u{345}","\u{55}\u{345}"],["\u{56}\u{345}","\u{56}\u{345}","\u{56}\u{345}","\u{56}\u{345}"],["\u{57}\u{345}","\u{57}\u{345}","\u{57}\u{345}","\u{57}\u{345}"],["\u{58}\u{345}","\u{58}\u{345}","\u{58}\u{345}","\u{58}\u{345}"],["\u{59}\u{345}","\u{59}\u{345}","\u{59}\u{345}","\u{59}\u{345}"],["\u{5a}\u{345}","\u{5a}\u{345}","\u{5a}\u{345}","\u{5a}\u{345}"],["\u{5b}\u{345}","\u{5b}\u{345}","\u{5b}\u{345}","\u{5b}\u{345}"],["\u{5c}\u{345}","\u{5c}\u{345}","\u{5c}\u{345}","\u{5c}\u{345}"],["\u{5d}\u{345}","\u{5d}\u{345}","\u{5d}\u{345}","\u{5d}\u{345}"],["\u{5e}\u{345}","\u{5e}\u{345}","\u{5e}\u{345}","\u{5e}\u{345}"],["\u{5f}\u{345}","\u{5f}\u{345}","\u{5f}\u{345}","\u{5f}\u{345}"],["\u{60}\u{345}","\u{60}\u{345}","\u{60}\u{345}","\u{60}\u{345}"],["\u{61}\u{345}","\u{61}\u{345}","\u{61}\u{345}","\u{61}\u{345}"],["\u{62}\u{345}","\u{62}\u{345}","\u{62}\u{345}","\u{62}\u{345}"],["\u{63}\u{345}","\u{63}\u{345}","\u{63}\u{345}","\u{63}\u{345}"],["\u{64}\u{345}","\u{64}\u{345}","\u{64}\u{345}","\u{64}\u{345}"],["\u{65}\u{345}","\u{65}\u{345}","\u{65}\u{345}","\u{65}\u{345}"],["\u{66}\u{345}","\u{66}\u{345}","\u{66}\u{345}","\u{66}\u{345}"],["\u{67}\u{345}","\u{67}\u{345}","\u{67}\u{345}","\u{67}\u{345}"],["\u{68}\u{345}","\u{68}\u{345}","\u{68}\u{345}","\u{68}\u{345}"],["\u{69}\u{345}","\u{69}\u{345}","\u{69}\u{345}","\u{69}\u{345}"],["\u{6a}\u{345}","\u{6a}\u{345}","\u{6a}\u{345}","\u{6a}\u{345}"],["\u{6b}\u{345}","\u{6b}\u{345}","\u{6b}\u{345}","\u{6b}\u{345}"],["\u{6c}\u{345}","\u{6c}\u{345}","\u{6c}\u{345}","\u{6c}\u{345}"],["\u{6d}\u{345}","\u{6d}\u{345}","\u{6d}\u{345}","\u{6d}\u{345}"],["\u{6e}\u{345}","\u{6e}\u{345}","\u{6e}\u{345}","\u{6e}\u{345}"],["\u{6f}\u{345}","\u{6f}\u{345}","\u{6f}\u{345}","\u{6f}\u{345}"],["\u{70}\u{345}","\u{70}\u{345}","\u{70}\u{345}","\u{70}\u{345}"],["\u{71}\u{345}","\u{71}\u{345}","\u{71}\u{345}","\u{71}\u{345}"],["\u{72}\u{345}","\u{72}\u{345}","\u{72}\u{345}","\u{72}\u{345}"],["\u{73}\u{345}","\u{73}\u{345}","\u{73}\u{345}","\u{73}\u{345}"],["\u{74}\u{345}","\u{74}\u{345}","\u{74}\u{345}","\u{74}\u{345}"],["\u{75}\u{345}","\u{75}\u{345}","\u{75}\u{345}","\u{75}\u{345}"],["\u{76}\u{345}","\u{76}\u{345}","\u{76}\u{345}","\u{76}\u{345}"],["\u{77}\u{345}","\u{77}\u{345}","\u{77}\u{345}","\u{77}\u{345}"],["\u{78}\u{345}","\u{78}\u{345}","\u{78}\u{345}","\u{78}\u{345}"],["\u{79}\u{345}","\u{79}\u{345}","\u{79}\u{345}","\u{79}\u{345}"],["\u{7a}\u{345}","\u{7a}\u{345}","\u{7a}\u{345}","\u{7a}\u{345}"]],
[["\u{41}\u{20d2}","\u{41}\u{20d2}","\u{41}\u{20d2}","\u{41}\u{20d2}"],["\u{42}\u{20d2}","\u{42}\u{20d2}","\u{42}\u{20d2}","\u{42}\u{20d2}"],["\u{43}\u{20d2}","\u{43}\u{20d2}","\u{43}\u{20d2}","\u{43}\u{20d2}"],["\u{44}\u{20d2}","\u{44}\u{20d2}","\u{44}\u{20d2}","\u{44}\u{20d2}"],["\u{45}\u{20d2}","\u{45}\u{20d2}","\u{45}\u{20d2}","\u{45}\u{20d2}"],["\u{46}\u{20d2}","\u{46}\u{20d2}","\u{46}\u{20d2}","\u{46}\u{20d2}"],["\u{47}\u{20d2}","\u{47}\u{20d2}","\u{47}\u{20d2}","\u{47}\u{20d2}"],["\u{48}\u{20d2}","\u{48}\u{20d2}","\u{48}\u{20d2}","\u{48}\u{20d2}"],["\u{49}\u{20d2}","\u{49}\u{20d2}","\u{49}\u{20d2}","\u{49}\u{20d2}"],["\u{4a}\u{20d2}","\u{4a}\u{20d2}","\u{4a}\u{20d2}","\u{4a}\u{20d2}"],["\u{4b}\u{20d2}","\u{4b}\u{20d2}","\u{4b}\u{20d2}","\u{4b}\u{20d2}"],["\u{4c}\u{20d2}","\u{4c}\u{20d2}","\u{4c}\u{20d2}","\u{4c}\u{20d2}"],["\u{4d}\u{20d2}","\u{4d}\u{20d2}","\u{4d}\u{20d2}","\u{4d}\u{20d2}"],["\u{4e}\u{20d2}","\u{4e}\u{20d2}","\u{4e}\u{20d2}","\u{4e}\u{20d2}"],["\u{4f}\u{20d2}","\u{4f}\u{20d2}","\u{4f}\u{20d2}","\u{4f}\u{20d2}"],["\u{50}\u{20d2}","\u{50}\u{20d2}","\u{50}\u{20d2}","\u{50}\u{20d2}"],["\u{51}\u{20d2}","\u{51}\u{20d2}","\u{51}\u{20d2}","\u{51}\u{20d2}"],["\u{52}\u{20d2}","\u{52}\u{20d2}","\u{52}\u{20d2}","\u{52}\u{20d2}"],["\u{53}\u{20d2}","\u{53}\u{20d2}","\u{53}\u{20d2}","\u{53}\u{20d2}"],["\u{54}\u{20d2}","\u{54}\u{20d2}","\u{54}\u{20d2}","\u{54}\u{20d2}"],["\u{55}\u{20d2}","\u{55}\u{20d2}","\u{55}\u{20d2}","\u{55}\u{20d2}"],["\u{56}\u{20d2}","\u{56}\u{20d2}","\u{56}\u{20d2}","\u{56}\u{20d2}"],["\u{57}\u{20d2}","\u{57}\u{20d2}","\u{57}\u{20d2}","\u{57}\u{20d2}"],["\u{58}\u{20d2}","\u{58}\u{20d2}","\u{58}\u{20d2}","\u{58}\u{20d2}"],["\u{59}\u{20d2}","\u{59}\u{20d2}","\u{59}\u{20d2}","\u{59}\u{20d2}"],["\u{5a}\u{20d2}","\u{5a}\u{20d2}","\u{5a}\u{20d2}","\u{5a}\u{20d2}"],["\u{5b}\u{20d2}","\u{5b}\u{20d2}","\u{5b}\u{20d2}","\u{5b}\u{20d2}"],["\u{5c}\u{20d2}","\u{5c}\u{20d2}","\u{5c}\u{20d2}","\u{5c}\u{20d2}"],["\u{5d}\u{20d2}","\u{5d}\u{20d2}","\u{5d}\u{20d2}","\u{5d}\u{20d2}"],["\u{5e}\u{20d2}","\u{5e}\u{20d2}","\u{5e}\u{20d2}","\u{5e}\u{20d2}"],["\u{5f}\u{20d2}","\u{5f}\u{20d2}","\u{5f}\u{20d2}","\u{5f}\u{20d2}"],["\u{60}\u{20d2}","\u{60}\u{20d2}","\u{60}\u{20d2}","\u{60}\u{20d2}"],["\u{61}\u{20d2}","\u{61}\u{20d2}","\u{61}\u{20d2}","\u{61}\u{20d2}"],["\u{62}\u{20d2}","\u{62}\u{20d2}","\u{62}\u{20d2}","\u{62}\u{20d2}"],["\u{63}\u{20d2}","\u{63}\u{20d2}","\u{63}\u{20d2}","\u{63}\u{20d2}"],["\u{64}\u{20d2}","\u{64}\u{20d2}","\u{64}\u{20d2}","\u{64}\u{20d2}"],["\u{65}\u{20d2}","\u{65}\u{20d2}","\u{65}\u{20d2}","\u{65}\u{20d2}"],["\u{66}\u{20d2}","\u{66}\u{20d2}","\u{66}\u{20d2}","\u{66}\u{20d2}"],["\u{67}\u{20d2}","\u{67}\u{20d2}","\u{67}\u{20d2}","\u{67}\u{20d2}"],["\u{68}\u{20d2}","\u{68}\u{20d2}","\u{68}\u{20d2}","\u{68}\u{20d2}"],["\u{69}\u{20d2}","\u{69}\u{20d2}","\u{69}\u{20d2}","\u{69}\u{20d2}"],["\u{6a}\u{20d2}","\u{6a}\u{20d2}","\u{6a}\u{20d2}","\u{6a}\u{20d2}"],["\u{6b}\u{20d2}","\u{6b}\u{20d2}","\u{6b}\u{20d2}","\u{6b}\u{20d2}"],["\u{6c}\u{20d2}","\u{6c}\u{20d2}","\u{6c}\u{20d2}","\u{6c}\u{20d2}"],["\u{6d}\u{20d2}","\u{6d}\u{20d2}","\u{6d}\u{20d2}","\u{6d}\u{20d2}"],["\u{6e}\u{20d2}","\u{6e}\u{20d2}","\u{6e}\u{20d2}","\u{6e}\u{20d2}"],["\u{6f}\u{20d2}","\u{6f}\u{20d2}","\u{6f}\u{20d2}","\u{6f}\u{20d2}"],["\u{70}\u{20d2}","\u{70}\u{20d2}","\u{70}\u{20d2}","\u{70}\u{20d2}"],["\u{71}\u{20d2}","\u{71}\u{20d2}","\u{71}\u{20d2}","\u{71}\u{20d2}"],["\u{72}\u{20d2}","\u{72}\u{20d2}","\u{72}\u{20d2}","\u{72}\u{20d2}"],["\u{73}\u{20d2}","\u{73}\u{20d2}","\u{73}\u{20d2}","\u{73}\u{20d2}"],["\u{74}\u{20d2}","\u{74}\u{20d2}","\u{74}\u{20d2}","\u{74}\u{20d2}"],["\u{75}\u{20d2}","\u{75}\u{20d2}","\u{75}\u{20d2}","\u{75}\u{20d2}"],["\u{76}\u{20d2}","\u{76}\u{20d2}","\u{76}\u{20d2}","\u{76}\u{20d2}"],["\u{77}\u{20d2}","\u{77}\u{20d2}","\u{77}\u{20d2}","\u{77}\u{20d2}"],["\u{78}\u{20d2}","\u{78}\u{20d2}","\u{78}\u{20d2}","\u{78}\u{20d2}"],["\u{79}\u{20d2}","\u{79}\u{20d2}","\u{79}\u{20d2}","\u{79}\u{20d2}"],["\u{7a}\u{20d2}","\u{7a}\u{20d2}","\u{7a}\u{20d2}","\u{7a}\u{20d2}"]],
];
pub const TWO: &[[[&str; 4]; 58]] = &[
[["\u{c0}\u{300}","\u{41}\u{300}\u{300}","\u{c0}\u{300}","\u{41}\u{300}\u{300}"],["\u{42}\u{300}\u{300}","\u{42}\u{300}\u{300}","\u{42}\u{300}\u{300}","\u{42}\u{300}\u{300}"],["\u{43}\u{300}\u{300}","\u{43}\u{300}\u{300}","\u{43}\u{300}\u{300}","\u{43}\u{300}\u{300}"],["\u{44}\u{300}\u{300}","\u{44}\u{300}\u{300}","\u{44}\u{300}\u{300}","\u{44}\u{300}\u{300}"],["\u{c8}\u{300}","\u{45}\u{300}\u{300}","\u{c8}\u{300}","\u{45}\u{300}\u{300}"],["\u{46}\u{300}\u{300}","\u{46}\u{300}\u{300}","\u{46}\u{300}\u{300}","\u{46}\u{300}\u{300}"],["\u{47}\u{300}\u{300}","\u{47}\u{300}\u{300}","\u{47}\u{300}\u{300}","\u{47}\u{300}\u{300}"],["\u{48}\u{300}\u{300}","\u{48}\u{300}\u{300}","\u{48}\u{300}\u{300}","\u{48}\u{300}\u{300}"],["\u{cc}\u{300}","\u{49}\u{300}\u{300}","\u{cc}\u{300}","\u{49}\u{300}\u{300}"],["\u{4a}\u{300}\u{300}","\u{4a}\u{300}\u{300}","\u{4a}\u{300}\u{300}","\u{4a}\u{300}\u{300}"],["\u{4b}\u{300}\u{300}","\u{4b}\u{300}\u{300}","\u{4b}\u{300}\u{300}","\u{4b}\u{300}\u{300}"],["\u{4c}\u{300}\u{300}","\u{4c}\u{300}\u{300}","\u{4c}\u{300}\u{300}","\u{4c}\u{300}\u{300}"],["\u{4d}\u{300}\u{300}","\u{4d}\u{300}\u{300}","\u{4d}\u{300}\u{300}","\u{4d}\u{300}\u{300}"],["\u{1f8}\u{300}","\u{4e}\u{300}\u{300}","\u{1f8}\u{300}","\u{4e}\u{300}\u{300}"],["\u{d2}\u{300}","\u{4f}\u{300}\u{300}","\u{d2}\u{300}","\u{4f}\u{300}\u{300}"],["\u{50}\u{300}\u{300}","\u{50}\u{300}\u{300}","\u{50}\u{300}\u{300}","\u{50}\u{300}\u{300}"],["\u{51}\u{300}\u{300}","\u{51}\u{300}\u{300}","\u{51}\u{300}\u{300}","\u{51}\u{300}\u{300}"],["\u{52}\u{300}\u{300}","\u{52}\u{300}\u{300}","\u{52}\u{300}\u{300}","\u{52}\u{300}\u{300}"],["\u{53}\u{300}\u{300}","\u{53}\u{300}\u{300}","\u{53}\u{300}\u{300}","\u{53}\u{300}\u{300}"],["\u{54}\u{300}\u{300}","\u{54}\u{300}\u{300}","\u{54}\u{300}\u{300}","\u{54}\u{300}\u{300}"],["\u{d9}\u{300}","\u{55}\u{300}\u{300}","\u{d9}\u{300}","\u{55}\u{300}\u{300}"],["\u{56}\u{300}\u{300}","\u{56}\u{300}\u{300}","\u{56}\u{300}\u{300}","\u{56}\u{300}\u{300}"],["\u{1e80}\u{300}","\u{57}\u{300}\u{300}","\u{1e80}\u{300}","\u{57}\u{300}\u{300}"],["\u{58}\u{300}\u{300}","\u{58}\u{300}\u{300}","\u{58}\u{300}\u{300}","\u{58}\u{300}\u{300}"],["\u{1ef2}\u{300}","\u{59}\u{300}\u{300}","\u{1ef2}\u{300}","\u{59}\u{300}\u{300}"],["\u{5a}\u{300}\u{300}","\u{5a}\u{300}\u{300}","\u{5a}\u{300}\u{300}","\u{5a}\u{300}\u{300}"],["\u{5b}\u{300}\u{300}","\u{5b}\u{300}\u{300}","\u{5b}\u{300}\u{300}","\u{5b}\u{300}\u{300}"],["\u{5c}\u{300}\u{300}","\u{5c}\u{300}\u{300}","\u{5c}\u{300}\u{300}","\u{5c}\u{300}\u{300}"],["\u{5d}\u{300}\u{300}","\u{5d}\u{300}\u{300}","\u{5d}\u{300}\u{300}","\u{5d}\u{300}\u{300}"],["\u{5e}\u{300}\u{300}","\u{5e}\u{300}\u{300}","\u{5e}\u{300}\u{300}","\u{5e}\u{300}\u{300}"],["\u{5f}\u{300}\u{300}","\u{5f}\u{300}\u{300}","\u{5f}\u{300}\u{300}","\u{5f}\u{300}\u{300}"],["\u{60}\u{300}\u{300}","\u{60}\u{300}\u{300}","\u{60}\u{300}\u{300}","\u{60}\u{300}\u{300}"],["\u{e0}\u{300}","\u{61}\u{300}\u{300}","\u{e0}\u{300}","\u{61}\u{300}\u{300}"],["\u{62}\u{300}\u{300}","\u{62}\u{300}\u{300}","\u{62}\u{300}\u{300}","\u{62}\u{300}\u{300}"],["\u{63}\u{300}\u{300}","\u{63}\u{300}\u{300}","\u{63}\u{300}\u{300}","\u{63}\u{300}\u{300}"],["\u{64}\u{300}\u{300}","\u{64}\u{300}\u{300}","\u{64}\u{300}\u{300}","\u{64}\u{300}\u{300}"],["\u{e8}\u{300}","\u{65}\u{300}\u{300}","\u{e8}\u{300}","\u{65}\u{300}\u{300}"],["\u{66}\u{300}\u{300}","\u{66}\u{300}\u{300}","\u{66}\u{300}\u{300}","\u{66}\u{300}\u{300}"],["\u{67}\u{300}\u{300}","\u{67}\u{300}\u{300}","\u{67}\u{300}\u{300}","\u{67}\u{300}\u{300}"],["\u{68}\u{300}\u{300}","\u{68}\u{300}\u{300}","\u{68}\u{300}\u{300}","\u{68}\u{300}\u{300}"],["\u{ec}\u{300}","\u{69}\u{300}\u{300}","\u{ec}\u{300}","\u{69}\u{300}\u{300}"],["\u{6a}\u{300}\u{300}","\u{6a}\u{300}\u{300}","\u{6a}\u{300}\u{300}","\u{6a}\u{300}\u{300}"],["\u{6b}\u{300}\u{300}","\u{6b}\u{300}\u{300}","\u{6b}\u{300}\u{300}","\u{6b}\u{300}\u{300}"],["\u{6c}\u{300}\u{300}","\u{6c}\u{300}\u{300}","\u{6c}\u{300}\u{300}","\u{6c}\u{300}\u{300}"],["\u{6d}\u{300}\u{300}","\u{6d}\u{300}\u{300}","\u{6d}\u{300}\u{300}","\u{6d}\u{300}\u{300}"],["\u{1f9}\u{300}","\u{6e}\u{300}\u{300}","\u{1f9}\u{300}","\u{6e}\u{300}\u{300}"],["\u{f2}\u{300}","\u{6f}\u{300}\u{300}","\u{f2}\u{300}","\u{6f}\u{300}\u{300}"],["\u{70}\u{300}\u{300}","\u{70}\u{300}\u{300}","\u{70}\u{300}\u{300}","\u{70}\u{300}\u{300}"],["\u{71}\u{300}\u{300}","\u{71}\u{300}\u{300}","\u{71}\u{300}\u{300}","\u{71}\u{300}\u{300}"],["\u{72}\u{300}\u{300}","\u{72}\u{300}\u{300}","\u{72}\u{300}\u{300}","\u{72}\u{300}\u{300}"],["\u{73}\u{300}\u{300}","\u{73}\u{300}\u{300}","\u{73}\u{300}\u{300}","\u{73}\u{300}\u{300}"],["\u{74}\u{300}\u{300}","\u{74}\u{300}\u{300}","\u{74}\u{300}\u{300}","\u{74}\u{300}\u{300}"],["\u{f9}\u{300}","\u{75}\u{300}\u{300}","\u{f9}\u{300}","\u{75}\u{300}\u{300}"],["\u{76}\u{300}\u{300}","\u{76}\u{300}\u{300}","\u{76}\u{300}\u{300}","\u{76}\u{300}\u{300}"],["\u{1e81}\u{300}","\u{77}\u{300}\u{300}","\u{1e81}\u{300}","\u{77}\u{300}\u{300}"],["\u{78}\u{300}\u{300}","\u{78}\u{300}\u{300}","\u{78}\u{300}\u{300}","\u{78}\u{300}\u{300}"],["\u{1ef3}\u{300}","\u{79}\u{300}\u{300}","\u{1ef3}\u{300}","\u{79}\u{300}\u{300}"],["\u{7a}\u{300}\u{300}","\u{7a}\u{300}\u{300}","\u{7a}\u{300}\u{300}","\u{7a}\u{300}\u{300}"]],
[["\u{c0}\u{301}","\u{41}\u{300}\u{301}","\u{c0}\u{301}","\u{41}\u{300}\u{301}"],["\u{42}\u{300}\u{301}","\u{42}\u{300}\u{301}","\u{42}\u{300}\u{301}","\u{42}\u{300}\u{301}"],["\u{43}\u{300}\u{301}","\u{43}\u{300}\u{301}","\u{43}\u{300}\u{301}","\u{43}\u{300}\u{301}"],["\u{44}\u{300}\u{301}","\u{44}\u{300}\u{301}","\u{44}\u{300}\u{301}","\u{44}\u{300}\u{301}"],["\u{c8}\u{301}","\u{45}\u{300}\u{301}","\u{c8}\u{301}","\u{45}\u{300}\u{301}"],["\u{46}\u{300}\u{301}","\u{46}\u{300}\u{301}","\u{46}\u{300}\u{301}","\u{46}\u{300}\u{301}"],["\u{47}\u{300}\u{301}","\u{47}\u{300}\u{301}","\u{47}\u{300}\u{301}","\u{47}\u{300}\u{301}"],["\u{48}\u{300}\u{301}","\u{48}\u{300}\u{301}","\u{48}\u{300}\u{301}","\u{48}\u{300}\u{301}"],["\u{cc}\u{301}","\u{49}\u{300}\u{301}","\u{cc}\u{301}","\u{49}\u{300}\u{301}"],["\u{4a}\u{300}\u{301}","\u{4a}\u{300}\u{301}","\u{4a}\u{300}\u{301}","\u{4a}\u{300}\u{301}"],["\u{4b}\u{300}\u{301}","\u{4b}\u{300}\u{301}","\u{4b}\u{300}\u{301}","\u{4b}\u{300}\u{301}"],["\u{4c}\u{300}\u{301}","\u{4c}\u{300}\u{301}","\u{4c}\u{300}\u{301}","\u{4c}\u{300}\u{301}"],["\u{4d}\u{300}\u{301}","\u{4d}\u{300}\u{301}","\u{4d}\u{300}\u{301}","\u{4d}\u{300}\u{301}"],["\u{1f8}\u{301}","\u{4e}\u{300}\u{301}","\u{1f8}\u{301}","\u{4e}\u{300}\u{301}"],["\u{d2}\u{301}","\u{4f}\u{300}\u{301}","\u{d2}\u{301}","\u{4f}\u{300}\u{301}"],["\u{50}\u{300}\u{301}","\u{50}\u{300}\u{301}","\u{50}\u{300}\u{301}","\u{50}\u{300}\u{301}"],["\u{51}\u{300}\u{301}","\u{51}\u{300}\u{301}","\u{51}\u{300}\u{301}","\u{51}\u{300}\u{301}"],["\u{52}\u{300}\u{301}","\u{52}\u{300}\u{301}","\u{52}\u{300}\u{301}","\u{52}\u{300}\u{301}"],["\u{53}\u{300}\u{301}","\u{53}\u{300}\u{301}","\u{53}\u{300}\u{301}","\u{53}\u{300}\u{301}"],["\u{54}\u{300}\u{301}","\u{54}\u{300}\u{301}","\u{54}\u{300}\u{301}","\u{54}\u{300}\u{301}"],["\u{d9}\u{301}","\u{55}\u{300}\u{301}","\u{d9}\u{301}","\u{55}\u{300}\u{301}"],["\u{56}\u{300}\u{301}","\u{56}\u{300}\u{301}","\u{56}\u{300}\u{301}","\u{56}\u{300}\u{301}"],["\u{1e80}\u{301}","\u{57}\u{300}\u{301}","\u{1e80}\u{301}","\u{57}\u{300}\u{301}"],["\u{58}\u{300}\u{301}","\u{58}\u{300}\u{301}","\u{58}\u{300}\u{301}","\u{58}\u{300}\u{301}"],["\u{1ef2}\u{301}","\u{59}\u{300}\u{301}","\u{1ef2}\u{301}","\u{59}\u{300}\u{301}"],["\u{5a}\u{300}\u{301}","\u{5a}\u{300}\u{301}","\u{5a}\u{300}\u{301}","\u{5a}\u{300}\u{301}"],["\u{5b}\u{300}\u{301}","\u{5b}\u{300}\u{301}","\u{5b}\u{300}\u{301}","\u{5b}\u{300}\u{301}"],["\u{5c}\u{300}\u{301}","\u{5c}\u{300}\u{301}","\u{5c}\u{300}\u{301}","\u{5c}\u{300}\u{301}"],["\u{5d}\u{300}\u{301}","\u{5d}\u{300}\u{301}","\u{5d}\u{300}\u{301}","\u{5d}\u{300}\u{301}"],["\u{5e}\u{300}\u{301}","\u{5e}\u{300}\u{301}","\u{5e}\u{300}\u{301}","\u{5e}\u{300}\u{301}"],["\u{5f}\u{300}\u{301}","\u{5f}\u{300}\u{301}","\u{5f}\u{300}\u{301}","\u{5f}\u{300}\u{301}"],["\u{60}\u{300}\u{301}","\u{60}\u{300}\u{301}","\u{60}\u{300}\u{301}","\u{60}\u{300}\u{301}"],["\u{e0}\u{301}","\u{61}\u{300}\u{301}","\u{e0}\u{301}","\u{61}\u{300}\u{301}"],["\u{62}\u{300}\u{301}","\u{62}\u{300}\u{301}","\u{62}\u{300}\u{301}","\u{62}\u{300}\u{301}"],["\u{63}\u{300}\u{301}","\u{63}\u{300}\u{301}","\u{63}\u{300}\u{301}","\u{63}\u{300}\u{301}"],["\u{64}\u{300}\u{301}","\u{64}\u{300}\u{301}","\u{64}\u{300}\u{301}","\u{64}\u{300}\u{301}"],["\u{e8}\u{301}","\u{65}\u{300}\u{301}","\u{e8}\u{301}","\u{65}\u{300}\u{301}"],["\u{66}\u{300}\u{301}","\u{66}\u{300}\u{301}","\u{66}\u{300}\u{301}","\u{66}\u{300}\u{301}"],["\u{67}\u{300}\u{301}","\u{67}\u{300}\u{301}","\u{67}\u{300}\u{301}","\u{67}\u{300}\u{301}"],["\u{68}\u{300}\u{301}","\u{68}\u{300}\u{301}","\u{68}\u{300}\u{301}","\u{68}\u{300}\u{301}"],["\u{ec}\u{301}","\u{69}\u{300}\u{301}","\u{ec}\u{301}","\u{69}\u{300}\u{301}"],["\u{6a}\u{300}\u{301}","\u{6a}\u{300}\u{301}","\u{6a}\u{300}\u{301}","\u{6a}\u{300}\u{301}"],["\u{6b}\u{300}\u{301}","\u{6b}\u{300}\u{301}","\u{6b}\u{300}\u{301}","\u{6b}\u{300}\u{301}"],["\u{6c}\u{300}\u{301}","\u{6c}\u{300}\u{301}","\u{6c}\u{300}\u{301}","\u{6c}\u{300}\u{301}"],["\u{6d}\u{300}\u{301}","\u{6d}\u{300}\u{301}","\u{6d}\u{300}\u{301}","\u{6d}\u{300}\u{301}"],["\u{1f9}\u{301}","\u{6e}\u{300}\u{301}","\u{1f9}\u{301}","\u{6e}\u{300}\u{301}"],["\u{f2}\u{301}","\u{6f}\u{300}\u{301}","\u{f2}\u{301}","\u{6f}\u{300}\u{301}"],["\u{70}\u{300}\u{301}","\u{70}\u{300}\u{301}","\u{70}\u{300}\u{301}","\u{70}\u{300}\u{301}"],["\u{71}\u{300}\u{301}","\u{71}\u{300}\u{301}","\u{71}\u{300}\u{301}","\u{71}\u{300}\u{301}"],["\u{72}\u{300}\u{301}","\u{72}\u{300}\u{301}","\u{72}\u{300}\u{301}","\u{72}\u{300}\u{301}"],["\u{73}\u{300}\u{301}","\u{73}\u{300}\u{301}","\u{73}\u{300}\u{301}","\u{73}\u{300}\u{301}"],["\u{74}\u{300}\u{301}","\u{74}\u{300}\u{301}","\u{74}\u{300}\u{301}","\u{74}\u{300}\u{301}"],["\u{f9}\u{301}","\u{75}\u{300}\u{301}","\u{f9}\u{301}","\u{75}\u{300}\u{301}"],["\u{76}\u{300}\u{301}","\u{76}\u{300}\u{301}","\u{76}\u{300}\u{301}","\u{76}\u{300}\u{301}"],["\u{1e81}\u{301}","\u{77}\u{300}\u{301}","\u{1e81}\u{301}","\u{77}\u{300}\u{301}"],["\u{78}\u{300}\u{301}","\u{78}\u{300}\u{301}","\u{78}\u{300}\u{301}","\u{78}\u{300}\u{301}"],["\u{1ef3}\u{301}","\u{79}\u{300}\u{301}","\u{1ef3}\u{301}","\u{79}\u{300}\u{301}"],["\u{7a}\u{300}\u{301}","\u{7a}\u{300}\u{301}","\u{7a}\u{300}\u{301}","\u{7a}\u{300}\u{301}"]],
[["\u{c0}\u{302}","\u{41}\u{300}\u{302}","\u{c0}\u{302}","\u{41}\u{300}\u{302}"],["\u{42}\u{300}\u{302}","\u{42}\u{300}\u{302}","\u{42}\u{300}\u{302}","\u{42}\u{300}\u{302}"],["\u{43}\u{300}\u{302}","\u{43}\u{300}\u{302}","\u{43}\u{300}\u{302}","\u{43}\u{300}\u{302}"],["\u{44}\u{300}\u{302}","\u{44}\u{300}\u{302}","\u{44}\u{300}\u{302}","\u{44}\u{300}\u{302}"],["\u{c8}\u{302}","\u{45}\u{300}\u{302}","\u{c8}\u{302}","\u{45}\u{300}\u{302}"],["\u{46}\u{300}\u{302}","\u{46}\u{300}\u{302}","\u{46}\u{300}\u{302}","\u{46}\u{300}\u{302}"],["\u{47}\u{300}\u{302}","\u{47}\u{300}\u{302}","\u{47}\u{300}\u{302}","\u{47}\u{300}\u{302}"],["\u{48}\u{300}\u{302}","\u{48}\u{300}\u{302}","\u{48}\u{300}\u{302}","\u{48}\u{300}\u{302}"],["\u{cc}\u{302}","\u{49}\u{300}\u{302}","\u{cc}\u{302}","\u{49}\u{300}\u{302}"],["\u{4a}\u{300}\u{302}","\u{4a}\u{300}\u{302}","\u{4a}\u{300}\u{302}","\u{4a}\u{300}\u{302}"],["\u{4b}\u{300}\u{302}","\u{4b}\u{300}\u{302}","\u{4b}\u{300}\u{302}","\u{4b}\u{300}\u{302}"],["\u{4c}\u{300}\u{302}","\u{4c}\u{300}\u{302}","\u{4c}\u{300}\u{302}","\u{4c}\u{300}\u{302}"],["\u{4d}\u{300}\u{302}","\u{4d}\u{300}\u{302}","\u{4d}\u{300}\u{302}","\u{4d}\u{300}\u{302}"],["\u{1f8}\u{302}","\u{4e}\u{300}\u{302}","\u{1f8}\u{302}","\u{4e}\u{300}\u{302}"],["\u{d2}\u{302}","\u{4f}\u{300}\u{302}","\u{d2}\u{302}","\u{4f}\u{300}\u{302}"],["\u{50}\u{300}\u{302}","\u{50}\u{300}\u{302}","\u{50}\u{300}\u{302}","\u{50}\u{300}\u{302}"],["\u{51}\u{300}\u{302}","\u{51}\u{300}\u{302}","\u{51}\u{300}\u{302}","\u{51}\u{300}\u{302}"],["\u{52}\u{300}\u{302}","\u{52}\u{300}\u{302}","\u{52}\u{300}\u{302}","\u{52}\u{300}\u{302}"],["\u{53}\u{300}\u{302}","\u{53}\u{300}\u{302}","\u{53}\u{300}\u{302}","\u{53}\u{300}\u{302}"],["\u{54}\u{300}\u{302}","\u{54}\u{300}\u{302}","\u{54}\u{300}\u{302}","\u{54}\u{300}\u{302}"],["\u{d9}\u{302}","\u{55}\u{300}\u{302}","\u{d9}\u{302}","\u{55}\u{300}\u{302}"],["\u{56}\u{300}\u{302}","\u{56}\u{300}\u{302}","\u{56}\u{300}\u{302}","\u{56}\u{300}\u{302}"],["\u{1e80}\u{302}","\u{57}\u{300}\u{302}","\u{1e80}\u{302}","\u{57}\u{300}\u{302}"],["\u{58}\u{300}\u{302}","\u{58}\u{300}\u{302}","\u{58}\u{300}\u{302}","\u{58}\u{300}\u{302}"],["\u{1ef2}\u{302}","\u{59}\u{300}\u{302}","\u{1ef2}\u{302}","\u{59}\u{300}\u{302}"],["\u{5a}\u{300}\u{302}","\u{5a}\u{300}\u{302}","\u{5a}\u{300}\u{302}","\u{5a}\u{300}\u{302}"],["\u{5b}\u{300}\u{302}","\u{5b}\u{300}\u{302}","\u{5b}\u{300}\u{302}","\u{5b}\u{300}\u{302}"],["\u{5c}\u{300}\u{302}","\u{5c}\u{300}\u{302}","\u{5c}\u{300}\u{302}","\u{5c}\u{300}\u{302}"],["\u{5d}\u{300}\u{302}","\u{5d}\u{300}\u{302}","\u{5d}\u{300}\u{302}","\u{5d}\u{300}\u{302}"],["\u{5e}\u{300}\u{302}","\u{5e}\u{300}\u{302}","\u{5e}\u{300}\u{302}","\u{5e}\u{300}\u{302}"],["\u{5f}\u{300}\u{302}","\u{5f}\u{300}\u{302}","\u{5f}\u{300}\u{302}","\u{5f}\u{300}\u{302}"],["\u{60}\u{300}\u{302}","\u{60}\u{300}\u{302}","\u{60}\u{300}\u{302}","\u{60}\u{300}\u{302}"],["\u{e0}\u{302}","\u{61}\u{300}\u{302}","\u{e0}\u{302}","\u{61}\u{300}\u{302}"],["\u{62}\u{300}\u{302}","\u{62}\u{300}\u{302}","\u{62}\u{300}\u{302}","\u{62}\u{300}\u{302}"],["\u{63}\u{300}\u{302}","\u{63}\u{300}\u{302}","\u{63}\u{300}\u{302}","\u{63}\u{300}\u{302}"],["\u{64}\u{300}\u{302}","\u{64}\u{300}\u{302}","\u{64}\u{300}\u{302}","\u{64}\u{300}\u{302}"],["\u{e8}\u{302}","\u{65}\u{300}\u{302}","\u{e8}\u{302}","\u{65}\u{300}\u{302}"],["\u{66}\u{300}\u{302}","\u{66}\u{300}\u{302}","\u{66}\u{300}\u{302}","\u{66}\u{300}\u{302}"],["\u{67}\u{300}\u{302}","\u{67}\u{300}\u{302}","\u{67}\u{300}\u{302}","\u{67}\u{300}\u{302}"],["\u{68}\u{300}\u{302}","\u{68}\u{300}\u{302}","\u{68}\u{300}\u{302}","\u{68}\u{300}\u{302}"],["\u{ec}\u{302}","\u{69}\u{300}\u{302}","\u{ec}\u{302}","\u{69}\u{300}\u{302}"],["\u{6a}\u{300}\u{302}","\u{6a}\u{300}\u{302}","\u{6a}\u{300}\u{302}","\u{6a}\u{300}\u{302}"],["\u{6b}\u{300}\u{302}","\u{6b}\u{300}\u{302}","\u{6b}\u{300}\u{302}","\u{6b}\u{300}\u{302}"],["\u{6c}\u{300}\u{302}","\u{6c}\u{300}\u{302}","\u{6c}\u{300}\u{302}","\u{6c}\u{300}\u{302}"],["\u{6d}\u{300}\u{302}","\u{6d}\u{300}\u{302}","\u{6d}\u{300}\u{302}","\u{6d}\u{300}\u{302}"],["\u{1f9}\u{302}","\u{6e}\u{300}\u{302}","\u{1f9}\u{302}","\u{6e}\u{300}\u{302}"],["\u{f2}\u{302}","\u{6f}\u{300}\u{302}","\u{f2}\u{302}","\u{6f}\u{300}\u{302}"],["\u{70}\u{300}\u{302}","\u{70}\u{300}\u{302}","\u{70}\u{300}\u{302}","\u{70}\u{300}\u{302}"],["\u{71}\u{300}\u{302}","\u{71}\u{300}\u{302}","\u{71}\u{300}\u{302}","\u{71}\u{300}\u{302}"],["\u{72}\u{300}\u{302}","\u{72}\u{300}\u{302}","\u{72}\u{300}\u{302}","\u{72}\u{300}\u{302}"],["\u{73}\u{300}\u{302}","\u{73}\u{300}\u{302}","\u{73}\u{300}\u{302}","\u{73}\u{300}\u{302}"],["\u{74}\u{300}\u{302}","\u{74}\u{300}\u{302}","\u{74}\u{300}\u{302}","\u{74}\u{300}\u{302}"],["\u{f9}\u{302}","\u{75}\u{300}\u{302}","\u{f9}\u{302}","\u{75}\u{300}\u{302}"],["\u{76}\u{300}\u{302}","\u{76}\u{300}\u{302}","\u{76}\u{300}\u{302}","\u{76}\u{300}\u{302}"],["\u{1e81}\u{302}","\u{77}\u{300}\u{302}","\u{1e81}\u{302}","\u{77}\u{300}\u{302}"],["\u{78}\u{300}\u{302}","\u{78}\u{300}\u{302}","\u{78}\u{300}\u{302}","\u{78}\u{300}\u{302}"],["\u{1ef3}\u{302}","\u{79}\u{300}\u{302}","\u{1ef3}\u{302}","\u{79}\u{300}\u{302}"],["\u{7a}\u{300}\u{302}","\u{7a}\u{300}\u{302}","\u{7a}\u{300}\u{302}","\u{7a}\u{300}\u{302}"]],
[["\u{c0}\u{303}","\u{41}\u{300}\u{303}","\u{c0}\u{303}","\u{41}\u{300}\u{303}"],["\u{42}\u{300}\u{303}","\u{42}\u{300}\u{303}","\u{42}\u{300}\u{303}","\u{42}\u{300}\u{303}"],["\u{43}\u{300}\u{303}","\u{43}\u{300}\u{303}","\u{43}\u{300}\u{303}","\u{43}\u{300}\u{303}"],["\u{44}\u{300}\u{303}","\u{44}\u{300}\u{303}","\u{44}\u{300}\u{303}","\u{44}\u{300}\u{303}"],["\u{c8}\u{303}","\u{45}\u{300}\u{303}","\u{c8}\u{303}","\u{45}\u{300}\u{303}"],["\u{46}\u{300}\u{303}","\u{46}\u{300}\u{303}","\u{46}\u{300}\u{303}","\u{46}\u{300}\u{303}"],["\u{47}\u{300}\u{303}","\u{47}\u{300}\u{303}","\u{47}\u{300}\u{303}","\u{47}\u{300}\u{303}"],["\u{48}\u{300}\u{303}","\u{48}\u{300}\u{303}","\u{48}\u{300}\u{303}","\u{48}\u{300}\u{303}"],["\u{cc}\u{303}","\u{49}\u{300}\u{303}","\u{cc}\u{303}","\u{49}\u{300}\u{303}"],["\u{4a}\u{300}\u{303}","\u{4a}\u{300}\u{303}","\u{4a}\u{300}\u{303}","\u{4a}\u{300}\u{303}"],["\u{4b}\u{300}\u{303}","\u{4b}\u{300}\u{303}","\u{4b}\u{300}\u{303}","\u{4b}\u{300}\u{303}"],["\u{4c}\u{300}\u{303}","\u{4c}\u{300}\u{303}","\u{4c}\u{300}\u{303}","\u{4c}\u{300}\u{303}"],["\u{4d}\u{300}\u{303}","\u{4d}\u{300}\u{303}","\u{4d}\u{300}\u{303}","\u{4d}\u{300}\u{303}"],["\u{1f8}\u{303}","\u{4e}\u{300}\u{303}","\u{1f8}\u{303}","\u{4e}\u{300}\u{303}"],["\u{d2}\u{303}","\u{4f}\u{300}\u{303}","\u{d2}\u{303}","\u{4f}\u{300}\u{303}"],["\u{50}\u{300}\u{303}","\u{50}\u{300}\u{303}","\u{50}\u{300}\u{303}","\u{50}\u{300}\u{303}"],["\u{51}\u{300}\u{303}","\u{51}\u{300}\u{303}","\u{51}\u{300}\u{303}","\u{51}\u{300}\u{303}"],["\u{52}\u{300}\u{303}","\u{52}\u{300}\u{303}","\u{52}\u{300}\u{303}","\u{52}\u{300}\u{303}"],["\u{53}\u{300}\u{303}","\u{53}\u{300}\u{303}","\u{53}\u{300}\u{303}","\u{53}\u{300}\u{303}"],["\u{54}\u{300}\u{303}","\u{54}\u{300}\u{303}","\u{54}\u{300}\u{303}","\u{54}\u{300}\u{303}"],["\u{d9}\u{303}","\u{55}\u{300}\u{303}","\u{d9}\u{303}","\u{55}\u{300}\u{303}"],["\u{56}\u{300}\u{303}","\u{56}\u{300}\u{303}","\u{56}\u{300}\u{303}","\u{56}\u{300}\u{303}"],["\u{1e80}\u{303}","\u{57}\u{300}\u{303}","\u{1e80}\u{303}","\u{57}\u{300}\u{303}"],["\u{58}\u{300}\u{303}","\u{58}\u{300}\u{303}","\u{58}\u{300}\u{303}","\u{58}\u{300}\u{303}"],["\u{1ef2}\u{303}","\u{59}\u{300}\u{303}","\u{1ef2}\u{303}","\u{59}\u{300}\u{303}"],["\u{5a}\u{300}\u{303}","\u{5a}\u{300}\u{303}","\u{5a}\u{300}\u{303}","\u{5a}\u{300}\u{303}"],["\u{5b}\u{300}\u{303}","\u{5b}\u{300}\u{303}","\u{5b}\u{300}\u{303}","\u{5b}\u{300}\u{303}"],["\u{5c}\u{300}\u{303}","\u{5c}\u{300}\u{303}","\u{5c}\u{300}\u{303}","\u{5c}\u{300}\u{303}"],["\u{5d}\u{300}\u{303}","\u{5d}\u{300}\u{303}","\u{5d}\u{300}\u{303}","\u{5d}\u{300}\u{303}"],["\u{5e}\u{300}\u{303}","\u{5e}\u{300}\u{303}","\u{5e}\u{300}\u{303}","\u{5e}\u{300}\u{303}"],["\u{5f}\u{300}\u{303}","\u{5f}\u{300}\u{303}","\u{5f}\u{300}\u{303}","\u{5f}\u{300}\u{303}"],["\u{60}\u{300}\u{303}","\u{60}\u{300}\u{303}","\u{60}\u{300}\u{303}","\u{60}\u{300}\u{303}"],["\u{e0}\u{303}","\u{61}\u{300}\u{303}","\u{e0}\u{303}","\u{61}\u{300}\u{303}"],["\u{62}\u{300}\u{303}","\u{62}\u{300}\u{303}","\u{62}\u{300}\u{303}","\u{62}\u{300}\u{303}"],["\u{63}\u{300}\u{303}","\u{63}\u{300}\u{303}","\u{63}\u{300}\u{303}","\u{63}\u{300}\u{303}"],["\u{64}\u{300}\u{303}","\u{64}\u{300}\u{303}","\u{64}\u{300}\u{303}","\u{64}\u{300}\u{303}"],["\u{e8}\u{303}","\u{65}\u{300}\u{303}","\u{e8}\u{303}","\u{65}\u{300}\u{303}"],["\u{66}\u{300}\u{303}","\u{66}\u{300}\u{303}","\u{66}\u{300}\u{303}","\u{66}\u{300}\u{303}"],["\u{67}\u{300}\u{303}","\u{67}\u{300}\u{303}","\u{67}\u{300}\u{303}","\u{67}\u{300}\u{303}"],["\u{68}\u{300}\u{303}","\u{68}\u{300}\u{303}","\u{68}\u{300}\u{303}","\u{68}\u{300}\u{303}"],["\u{ec}\u{303}","\u{69}\u{300}\u{303}","\u{ec}\u{303}","\u{69}\u{300}\u{303}"],["\u{6a}\u{300}\u{303}","\u{6a}\u{300}\u{303}","\u{6a}\u{300}\u{303}","\u{6a}\u{300}\u{303}"],["\u{6b}\u{300}\u{303}","\u{6b}\u{300}\u{303}","\u{6b}\u{300}\u{303}","\u{6b}\u{300}\u{303}"],["\u{6c}\u{300}\u{303}","\u{6c}\u{300}\u{303}","\u{6c}\u{300}\u{303}","\u{6c}\u{300}\u{303}"],["\u{6d}\u{300}\u{303}","\u{6d}\u{300}\u{303}","\u{6d}\u{300}\u{303}","\u{6d}\u{300}\u{303}"],["\u{1f9}\u{303}","\u{6e}\u{300}\u{303}","\u{1f9}\u{303}","\u{6e}\u{300}\u{303}"],["\u{f2}\u{303}","\u{6f}\u{300}\u{303}","\u{f2}\u{303}","\u{6f}\u{300}\u{303}"],["\u{70}\u{300}\u{303}","\u{70}\u{300}\u{303}","\u{70}\u{300}\u{303}","\u{70}\u{300}\u{303}"],["\u{71}\u{300}\u{303}","\u{71}\u{300}\u{303}","\u{71}\u{300}\u{303}","\u{71}\u{300}\u{303}"],["\u{72}\u{300}\u{303}","\u{72}\u{300}\u{303}","\u{72}\u{300}\u{303}","\u{72}\u{300}\u{303}"],["\u{73}\u{300}\u{303}","\u{73}\u{300}\u{303}","\u{73}\u{300}\u{303}","\u{73}\u{300}\u{303}"],["\u{74}\u{300}\u{303}","\u{74}\u{300}\u{303}","\u{74}\u{300}\u{303}","\u{74}\u{300}\u{303}"],["\u{f9}\u{303}","\u{75}\u{300}\u{303}","\u{f9}\u{303}","\u{75}\u{300}\u{303}"],["\u{76}\u{300}\u{303}","\u{76}\u{300}\u{303}","\u{76}\u{300}\u{303}","\u{76}\u{300}\u{303}"],["\u{1e81}\u{303}","\u{77}\u{300}\u{303}","\u{1e81}\u{303}","\u{77}\u{300}\u{303}"],["\u{78}\u{300}\u{303}","\u{78}\u{300}\u{303}","\u{78}\u{300}\u{303}","\u{78}\u{300}\u{303}"],["\u{1ef3}\u{303}","\u{79}\u{300}\u{303}","\u{1ef3}\u{303}","\u{79}\u{300}\u{303}"],["\u{7a}\u{300}\u{303}","\u{7a}\u{300}\u{303}","\u{7a}\u{300}\u{303}","\u{7a}\u{300}\u{303}"]],
[["\u{c0}\u{308}","\u{41}\u{300}\u{308}","\u{c0}\u{308}","\u{41}\u{300}\u{308}"],["\u{42}\u{300}\u{308}","\u{42}\u{300}\u{308}","\u{42}\u{300}\u{308}","\u{42}\u{300}\u{308}"],["\u{43}\u{300}\u{308}","\u{43}\u{300}\u{308}","\u{43}\u{300}\u{308}","\u{43}\u{300}\u{308}"],["\u{44}\u{300}\u{308}","\u{44}\u{300}\u{308}","\u{44}\u{300}\u{308}","\u{44}\u{300}\u{308}"],["\u{c8}\u{308}","\u{45}\u{300}\u{308}","\u{c8}\u{308}","\u{45}\u{300}\u{308}"],["\u{46}\u{300}\u{308}","\u{46}\u{300}\u{308}","\u{46}\u{300}\u{308}","\u{46}\u{300}\u{308}"],["\u{47}\u{300}\u{308}","\u{47}\u{300}\u{308}","\u{47}\u{300}\u{308}","\u{47}\u{300}\u{308}"],["\u{48}\u{300}\u{308}","\u{48}\u{300}\u{308}","\u{48}\u{300}\u{308}","\u{48}\u{300}\u{308}"],["\u{cc}\u{308}","\u{49}\u{300}\u{308}","\u{cc}\u{308}","\u{49}\u{300}\u{308}"],["\u{4a}\u{300}\u{308}","\u{4a}\u{300}\u{308}","\u{4a}\u{300}\u{308}","\u{4a}\u{300}\u{308}"],["\u{4b}\u{300}\u{308}","\u{4b}\u{300}\u{308}","\u{4b}\u{300}\u{308}","\u{4b}\u{300}\u{308}"],["\u{4c}\u{300}\u{308}","\u{4c}\u{300}\u{308}","\u{4c}\u{300}\u{308}","\u{4c}\u{300}\u{308}"],["\u{4d}\u{300}\u{308}","\u{4d}\u{300}\u{308}","\u{4d}\u{300}\u{308}","\u{4d}\u{300}\u{308}"],["\u{1f8}\u{308}","\u{4e}\u{300}\u{308}","\u{1f8}\u{308}","\u{4e}\u{300}\u{308}"],["\u{d2}\u{308}","\u{4f}\u{300}\u{308}","\u{d2}\u{308}","\u{4f}\u{300}\u{308}"],["\u{50}\u{300}\u{308}","\u{50}\u{300}\u{308}","\u{50}\u{300}\u{308}","\u{50}\u{300}\u{308}"],["\u{51}\u{300}\u{308}","\u{51}\u{300}\u{308}","\u{51}\u{300}\u{308}","\u{51}\u{300}\u{308}"],["\u{52}\u{300}\u{308}","\u{52}\u{300}\u{308}","\u{52}\u{300}\u{308}","\u{52}\u{300}\u{308}"],["\u{53}\u{300}\u{308}","\u{53}\u{300}\u{308}","\u{53}\u{300}\u{308}","\u{53}\u{300}\u{308}"],["\u{54}\u{300}\u{308}","\u{54}\u{300}\u{308}","\u{54}\u{300}\u{308}","\u{54}\u{300}\u{308}"],["\u{d9}\u{308}","\u{55}\u{300}\u{308}","\u{d9}\u{308}","\u{55}\u{300}\u{308}"],["\u{56}\u{300}\u{308}","\u{56}\u{300}\u{308}","\u{56}\u{300}\u{308}","\u{56}\u{300}\u{308}"],["\u{1e80}\u{308}","\u{57}\u{300}\u{308}","\u{1e80}\u{308}","\u{57}\u{300}\u{308}"],["\u{58}\u{300}\u{308}","\u{58}\u{300}\u{308}","\u{58}\u{300}\u{308}","\u{58}\u{300}\u{308}"],["\u{1ef2}\u{308}","\u{59}\u{300}\u{308}","\u{1ef2}\u{308}","\u{59}\u{300}\u{308}"],["\u{5a}\u{300}\u{308}","\u{5a}\u{300}\u{308}","\u{5a}\u{300}\u{308}","\u{5a}\u{300}\u{308}"],["\u{5b}\u{300}\u{308}","\u{5b}\u{300}\u{308}","\u{5b}\u{300}\u{308}","\u{5b}\u{300}\u{308}"],["\u{5c}\u{300}\u{308}","\u{5c}\u{300}\u{308}","\u{5c}\u{300}\u{308}","\u{5c}\u{300}\u{308}"],["\u{5d}\u{300}\u{308}","\u{5d}\u{300}\u{308}","\u{5d}\u{300}\u{308}","\u{5d}\u{300}\u{308}"],["\u{5e}\u{300}\u{308}","\u{5e}\u{300}\u{308}","\u{5e}\u{300}\u{308}","\u{5e}\u{300}\u{308}"],["\u{5f}\u{300}\u{308}","\u{5f}\u{300}\u{308}","\u{5f}\u{300}\u{308}","\u{5f}\u{300}\u{308}"],["\u{60}\u{300}\u{308}","\u{60}\u{300}\u{308}","\u{60}\u{300}\u{308}","\u{60}\u{300}\u{308}"],["\u{e0}\u{308}","\u{61}\u{300}\u{308}","\u{e0}\u{308}","\u{61}\u{300}\u{308}"],["\u{62}\u{300}\u{308}","\u{62}\u{300}\u{308}","\u{62}\u{300}\u{308}","\u{62}\u{300}\u{308}"],["\u{63}\u{300}\u{308}","\u{63}\u{300}\u{308}","\u{63}\u{300}\u{308}","\u{63}\u{300}\u{308}"],["\u{64}\u{300}\u{308}","\u{64}\u{300}\u{308}","\u{64}\u{300}\u{308}","\u{64}\u{300}\u{308}"],["\u{e8}\u{308}","\u{65}\u{300}\u{308}","\u{e8}\u{308}","\u{65}\u{300}\u{308}"],["\u{66}\u{300}\u{308}","\u{66}\u{300}\u{308}","\u{66}\u{300}\u{308}","\u{66}\u{300}\u{308}"],["\u{67}\u{300}\u{308}","\u{67}\u{300}\u{308}","\u{67}\u{300}\u{308}","\u{67}\u{300}\u{308}"],["\u{68}\u{300}\u{308}","\u{68}\u{300}\u{308}","\u{68}\u{300}\u{308}","\u{68}\u{300}\u{308}"],["\u{ec}\u{308}","\u{69}\u{300}\u{308}","\u{ec}\u{308}","\u{69}\u{300}\u{308}"],["\u{6a}\u{300}\u{308}","\u{6a}\u{300}\u{308}","\u{6a}\u{300}\u{308}","\u{6a}\u{300}\u{308}"],["\u{6b}\u{300}\u{308}","\u{6b}\u{300}\u{308}","\u{6b}\u{300}\u{308}","\u{6b}\u{300}\u{308}"],["\u{6c}\u{300}\u{308}","\u{6c}\u{300}\u{308}","\u{6c}\u{300}\u{308}","\u{6c}\u{300}\u{308}"],["\u{6d}\u{300}\u{308}","\u{6d}\u{300}\u{308}","\u{6d}\u{300}\u{308}","\u{6d}\u{300}\u{308}"],["\u{1f9}\u{308}","\u{6e}\u{300}\u{308}","\u{1f9}\u{308}","\u{6e}\u{300}\u{308}"],["\u{f2}\u{308}","\u{6f}\u{300}\u{308}","\u{f2}\u{308}","\u{6f}\u{300}\u{308}"],["\u{70}\u{300}\u{308}","\u{70}\u{300}\u{308}","\u{70}\u{300}\u{308}","\u{70}\u{300}\u{308}"],["\u{71}\u{300}\u{308}","\u{71}\u{300}\u{308}","\u{71}\u{300}\u{308}","\u{71}\u{300}\u{308}"],["\u{72}\u{300}\u{308}","\u{72}\u{300}\u{308}","\u{72}\u{300}\u{308}","\u{72}\u{300}\u{308}"],["\u{73}\u{300}\u{308}","\u{73}\u{300}\u{308}","\u{73}\u{300}\u{308}","\u{73}\u{300}\u{308}"],["\u{74}\u{300}\u{308}","\u{74}\u{300}\u{308}","\u{74}\u{300}\u{308}","\u{74}\u{300}\u{308}"],["\u{f9}\u{308}","\u{75}\u{300}\u{308}","\u{f9}\u{308}","\u{75}\u{300}\u{308}"],["\u{76}\u{300}\u{308}","\u{76}\u{300}\u{308}","\u{76}\u{300}\u{308}","\u{76}\u{300}\u{308}"],["\u{1e81}\u{308}","\u{77}\u{300}\u{308}","\u{1e81}\u{308}","\u{77}\u{300}\u{308}"],["\u{78}\u{300}\u{308}","\u{78}\u{300}\u{308}","\u{78}\u{300}\u{308}","\u{78}\u{300}\u{308}"],["\u{1ef3}\u{308}","\u{79}\u{300}\u{308}","\u{1ef3}\u{308}","\u{79}\u{300}\u{308}"],["\u{7a}\u{300}\u{308}","\u{7a}\u{300}\u{308}","\u{7a}\u{300}\u{308}","\u{7a}\u{300}\u{308}"]],
[["\u{1ea0}\u{300}","\u{41}\u{323}\u{300}","\u{1ea0}\u{300}","\u{41}\u{323}\u{300}"],["\u{1e04}\u{300}","\u{42}\u{323}\u{300}","\u{1e04}\u{300}","\u{42}\u{323}\u{300}"],["\u{43}\u{323}\u{300}","\u{43}\u{323}\u{300}","\u{43}\u{323}\u{300}","\u{43}\u{323}\u{300}"],["\u{1e0c}\u{300}","\u{44}\u{323}\u{300}","\u{1e0c}\u{300}","\u{44}\u{323}\u{300}"],["\u{1eb8}\u{300}","\u{45}\u{323}\u{300}","\u{1eb8}\u{300}","\u{45}\u{323}\u{300}"],["\u{46}\u{323}\u{300}","\u{46}\u{323}\u{300}","\u{46}\u{323}\u{300}","\u{46}\u{323}\u{300}"],["\u{47}\u{323}\u{300}","\u{47}\u{323}\u{300}","\u{47}\u{323}\u{300}","\u{47}\u{323}\u{300}"],["\u{1e24}\u{300}","\u{48}\u{323}\u{300}","\u{1e24}\u{300}","\u{48}\u{323}\u{300}"],["\u{1eca}\u{300}","\u{49}\u{323}\u{300}","\u{1eca}\u{300}","\u{49}\u{323}\u{300}"],["\u{4a}\u{323}\u{300}","\u{4a}\u{323}\u{300}","\u{4a}\u{323}\u{300}","\u{4a}\u{323}\u{300}"],["\u{1e32}\u{300}","\u{4b}\u{323}\u{300}","\u{1e32}\u{300}","\u{4b}\u{323}\u{300}"],["\u{1e36}\u{300}","\u{4c}\u{323}\u{300}","\u{1e36}\u{300}","\u{4c}\u{323}\u{300}"],["\u{1e42}\u{300}","\u{4d}\u{323}\u{300}","\u{1e42}\u{300}","\u{4d}\u{323}\u{300}"],["\u{1e46}\u{300}","\u{4e}\u{323}\u{300}","\u{1e46}\u{300}","\u{4e}\u{323}\u{300}"],["\u{1ecc}\u{300}","\u{4f}\u{323}\u{300}","\u{1ecc}\u{300}","\u{4f}\u{323}\u{300}"],["\u{50}\u{323}\u{300}","\u{50}\u{323}\u{300}","\u{50}\u{323}\u{300}","\u{50}\u{323}\u{300}"],["\u{51}\u{323}\u{300}","\u{51}\u{323}\u{300}","\u{51}\u{323}\u{300}","\u{51}\u{323}\u{300}"],["\u{1e5a}\u{300}","\u{52}\u{323}\u{300}","\u{1e5a}\u{300}","\u{52}\u{323}\u{300}"],["\u{1e62}\u{300}","\u{53}\u{323}\u{300}","\u{1e62}\u{300}","\u{53}\u{323}\u{300}"],["\u{1e6c}\u{300}","\u{54}\u{323}\u{300}","\u{1e6c}\u{300}","\u{54}\u{323}\u{300}"],["\u{1ee4}\u{300}","\u{55}\u{323}\u{300}","\u{1ee4}\u{300}","\u{55}\u{323}\u{300}"],["\u{1e7e}\u{300}","\u{56}\u{323}\u{300}","\u{1e7e}\u{300}","\u{56}\u{323}\u{300}"],["\u{1e88}\u{300}","\u{57}\u{323}\u{300}","\u{1e88}\u{300}","\u{57}\u{323}\u{300}"],["\u{58}\u{323}\u{300}","\u{58}\u{323}\u{300}","\u{58}\u{323}\u{300}","\u{58}\u{323}\u{300}"],["\u{1ef4}\u{300}","\u{59}\u{323}\u{300}","\u{1ef4}\u{300}","\u{59}\u{323}\u{300}"],["\u{1e92}\u{300}","\u{5a}\u{323}\u{300}","\u{1e92}\u{300}","\u{5a}\u{323}\u{300}"],["\u{5b}\u{323}\u{300}","\u{5b}\u{323}\u{300}","\u{5b}\u{323}\u{300}","\u{5b}\u{323}\u{300}"],["\u{5c}\u{323}\u{300}","\u{5c}\u{323}\u{300}","\u{5c}\u{323}\u{300}","\u{5c}\u{323}\u{300}"],["\u{5d}\u{323}\u{300}","\u{5d}\u{323}\u{300}","\u{5d}\u{323}\u{300}","\u{5d}\u{323}\u{300}"],["\u{5e}\u{323}\u{300}","\u{5e}\u{323}\u{300}","\u{5e}\u{323}\u{300}","\u{5e}\u{323}\u{300}"],["\u{5f}\u{323}\u{300}","\u{5f}\u{323}\u{300}","\u{5f}\u{323}\u{300}","\u{5f}\u{323}\u{300}"],["\u{60}\u{323}\u{300}","\u{60}\u{323}\u{300}","\u{60}\u{323}\u{300}","\u{60}\u{323}\u{300}"],["\u{1ea1}\u{300}","\u{61}\u{323}\u{300}","\u{1ea1}\u{300}","\u{61}\u{323}\u{300}"],["\u{1e05}\u{300}","\u{62}\u{323}\u{300}","\u{1e05}\u{300}","\u{62}\u{323}\u{300}"],["\u{63}\u{323}\u{300}","\u{63}\u{323}\u{300}","\u{63}\u{323}\u{300}","\u{63}\u{323}\u{300}"],["\u{1e0d}\u{300}","\u{64}\u{323}\u{300}","\u{1e0d}\u{300}","\u{64}\u{323}\u{300}"],["\u{1eb9}\u{300}","\u{65}\u{323}\u{300}","\u{1eb9}\u{300}","\u{65}\u{323}\u{300}"],["\u{66}\u{323}\u{300}","\u{66}\u{323}\u{300}","\u{66}\u{323}\u{300}","\u{66}\u{323}\u{300}"],["\u{67}\u{323}\u{300}","\u{67}\u{323}\u{300}","\u{67}\u{323}\u{300}","\u{67}\u{323}\u{300}"],["\u{1e25}\u{300}","\u{68}\u{323}\u{300}","\u{1e25}\u{300}","\u{68}\u{323}\u{300}"],["\u{1ecb}\u{300}","\u{69}\u{323}\u{300}","\u{1ecb}\u{300}","\u{69}\u{323}\u{300}"],["\u{6a}\u{323}\u{300}","\u{6a}\u{323}\u{300}","\u{6a}\u{323}\u{300}","\u{6a}\u{323}\u{300}"],["\u{1e33}\u{300}","\u{6b}\u{323}\u{300}","\u{1e33}\u{300}","\u{6b}\u{323}\u{300}"],["\u{1e37}\u{300}","\u{6c}\u{323}\u{300}","\u{1e37}\u{300}","\u{6c}\u{323}\u{300}"],["\u{1e43}\u{300}","\u{6d}\u{323}\u{300}","\u{1e43}\u{300}","\u{6d}\u{323}\u{300}"],["\u{1e47}\u{300}","\u{6e}\u{323}\u{300}","\u{1e47}\u{300}","\u{6e}\u{323}\u{300}"],["\u{1ecd}\u{300}","\u{6f}\u{323}\u{300}","\u{1ecd}\u{300}","\u{6f}\u{323}\u{300}"],["\u{70}\u{323}\u{300}","\u{70}\u{323}\u{300}","\u{70}\u{323}\u{300}","\u{70}\u{323}\u{300}"],["\u{71}\u{323}\u{300}","\u{71}\u{323}\u{300}","\u{71}\u{323}\u{300}","\u{71}\u{323}\u{300}"],["\u{1e5b}\u{300}","\u{72}\u{323}\u{300}","\u{1e5b}\u{300}","\u{72}\u{323}\u{300}"],["\u{1e63}\u{300}","\u{73}\u{323}\u{300}","\u{1e63}\u{300}","\u{73}\u{323}\u{300}"],["\u{1e6d}\u{300}","\u{74}\u{323}\u{300}","\u{1e6d}\u{300}","\u{74}\u{323}\u{300}"],["\u{1ee5}\u{300}","\u{75}\u{323}\u{300}","\u{1ee5}\u{300}","\u{75}\u{323}\u{300}"],["\u{1e7f}\u{300}","\u{76}\u{323}\u{300}","\u{1e7f}\u{300}","\u{76}\u{323}\u{300}"],["\u{1e89}\u{300}","\u{77}\u{323}\u{300}","\u{1e89}\u{300}","\u{77}\u{323}\u{300}"],["\u{78}\u{323}\u{300}","\u{78}\u{323}\u{300}","\u{78}\u{323}\u{300}","\u{78}\u{323}\u{300}"],["\u{1ef5}\u{300}","\u{79}\u{323}\u{300}","\u{1ef5}\u{300}","\u{79}\u{323}\u{300}"],["\u{1e93}\u{300}","\u{7a}\u{323}\u{300}","\u{1e93}\u{300}","\u{7a}\u{323}\u{300}"]],
[["\u{c0}\u{327}","\u{41}\u{327}\u{300}","\u{c0}\u{327}","\u{41}\u{327}\u{300}"],["\u{42}\u{327}\u{300}","\u{42}\u{327}\u{300}","\u{42}\u{327}\u{300}","\u{42}\u{327}\u{300}"],["\u{c7}\u{300}","\u{43}\u{327}\u{300}","\u{c7}\u{300}","\u{43}\u{327}\u{300}"],["\u{1e10}\u{300}","\u{44}\u{327}\u{300}","\u{1e10}\u{300}","\u{44}\u{327}\u{300}"],["\u{228}\u{300}","\u{45}\u{327}\u{300}","\u{228}\u{300}","\u{45}\u{327}\u{300}"],["\u{46}\u{327}\u{300}","\u{46}\u{327}\u{300}","\u{46}\u{327}\u{300}","\u{46}\u{327}\u{300}"],["\u{122}\u{300}","\u{47}\u{327}\u{300}","\u{122}\u{300}","\u{47}\u{327}\u{300}"],["\u{1e28}\u{300}","\u{48}\u{327}\u{300}","\u{1e28}\u{300}","\u{48}\u{327}\u{300}"],["\u{cc}\u{327}","\u{49}\u{327}\u{300}","\u{cc}\u{327}","\u{49}\u{327}\u{300}"],["\u{4a}\u{327}\u{300}","\u{4a}\u{327}\u{300}","\u{4a}\u{327}\u{300}","\u{4a}\u{327}\u{300}"],["\u{136}\u{300}","\u{4b}\u{327}\u{300}","\u{136}\u{300}","\u{4b}\u{327}\u{300}"],["\u{13b}\u{300}","\u{4c}\u{327}\u{300}","\u{13b}\u{300}","\u{4c}\u{327}\u{300}"],["\u{4d}\u{327}\u{300}","\u{4d}\u{327}\u{300}","\u{4d}\u{327}\u{300}","\u{4d}\u{327}\u{300}"],["\u{145}\u{300}","\u{4e}\u{327}\u{300}","\u{145}\u{300}","\u{4e}\u{327}\u{300}"],["\u{d2}\u{327}","\u{4f}\u{327}\u{300}","\u{d2}\u{327}","\u{4f}\u{327}\u{300}"],["\u{50}\u{327}\u{300}","\u{50}\u{327}\u{300}","\u{50}\u{327}\u{300}","\u{50}\u{327}\u{300}"],["\u{51}\u{327}\u{300}","\u{51}\u{327}\u{300}","\u{51}\u{327}\u{300}","\u{51}\u{327}\u{300}"],["\u{156}\u{300}","\u{52}\u{327}\u{300}","\u{156}\u{300}","\u{52}\u{327}\u{300}"],["\u{15e}\u{300}","\u{53}\u{327}\u{300}","\u{15e}\u{300}","\u{53}\u{327}\u{300}"],["\u{162}\u{300}","\u{54}\u{327}\u{300}","\u{162}\u{300}","\u{54}\u{327}\u{300}"],["\u{d9}\u{327}","\u{55}\u{327}\u{300}","\u{d9}\u{327}","\u{55}\u{327}\u{300}"],["\u{56}\u{327}\u{300}","\u{56}\u{327}\u{300}","\u{56}\u{327}\u{300}","\u{56}\u{327}\u{300}"],["\u{1e80}\u{327}","\u{57}\u{327}\u{300}","\u{1e80}\u{327}","\u{57}\u{327}\u{300}"],["\u{58}\u{327}\u{300}","\u{58}\u{327}\u{300}","\u{58}\u{327}\u{300}","\u{58}\u{327}\u{300}"],["\u{1ef2}\u{327}","\u{59}\u{327}\u{300}","\u{1ef2}\u{327}","\u{59}\u{327}\u{300}"],["\u{5a}\u{327}\u{300}","\u{5a}\u{327}\u{300}","\u{5a}\u{327}\u{300}","\u{5a}\u{327}\u{300}"],["\u{5b}\u{327}\u{300}","\u{5b}\u{327}\u{300}","\u{5b}\u{327}\u{300}","\u{5b}\u{327}\u{300}"],["\u{5c}\u{327}\u{300}","\u{5c}\u{327}\u{300}","\u{5c}\u{327}\u{300}","\u{5c}\u{327}\u{300}"],["\u{5d}\u{327}\u{300}","\u{5d}\u{327}\u{300}","\u{5d}\u{327}\u{300}","\u{5d}\u{327}\u{300}"],["\u{5e}\u{327}\u{300}","\u{5e}\u{327}\u{300}","\u{5e}\u{327}\u{300}","\u{5e}\u{327}\u{300}"],["\u{5f}\u{327}\u{300}","\u{5f}\u{327}\u{300}","\u{5f}\u{327}\u{300}","\u{5f}\u{327}\u{300}"],["\u{60}\u{327}\u{300}","\u{60}\u{327}\u{300}","\u{60}\u{327}\u{300}","\u{60}\u{327}\u{300}"],["\u{e0}\u{327}","\u{61}\u{327}\u{300}","\u{e0}\u{327}","\u{61}\u{327}\u{300}"],["\u{62}\u{327}\u{300}","\u{62}\u{327}\u{300}","\u{62}\u{327}\u{300}","\u{62}\u{327}\u{300}"],["\u{e7}\u{300}","\u{63}\u{327}\u{300}","\u{e7}\u{300}","\u{63}\u{327}\u{300}"],["\u{1e11}\u{300}","\u{64}\u{327}\u{300}","\u{1e11}\u{300}","\u{64}\u{327}\u{300}"],["\u{229}\u{300}","\u{65}\u{327}\u{300}","\u{229}\u{300}","\u{65}\u{327}\u{300}"],["\u{66}\u{327}\u{300}","\u{66}\u{327}\u{300}","\u{66}\u{327}\u{300}","\u{66}\u{327}\u{300}"],["\u{123}\u{300}","\u{67}\u{327}\u{300}","\u{123}\u{300}","\u{67}\u{327}\u{300}"],["\u{1e29}\u{300}","\u{68}\u{327}\u{300}","\u{1e29}\u{300}","\u{68}\u{327}\u{300}"],["\u{ec}\u{327}","\u{69}\u{327}\u{300}","\u{ec}\u{327}","\u{69}\u{327}\u{300}"],["\u{6a}\u{327}\u{300}","\u{6a}\u{327}\u{300}","\u{6a}\u{327}\u{300}","\u{6a}\u{327}\u{300}"],["\u{137}\u{300}","\u{6b}\u{327}\u{300}","\u{137}\u{300}","\u{6b}\u{327}\u{300}"],["\u{13c}\u{300}","\u{6c}\u{327}\u{300}","\u{13c}\u{300}","\u{6c}\u{327}\u{300}"],["\u{6d}\u{327}\u{300}","\u{6d}\u{327}\u{300}","\u{6d}\u{327}\u{300}","\u{6d}\u{327}\u{300}"],["\u{146}\u{300}","\u{6e}\u{327}\u{300}","\u{146}\u{300}","\u{6e}\u{327}\u{300}"],["\u{f2}\u{327}","\u{6f}\u{327}\u{300}","\u{f2}\u{327}","\u{6f}\u{327}\u{300}"],["\u{70}\u{327}\u{300}","\u{70}\u{327}\u{300}","\u{70}\u{327}\u{300}","\u{70}\u{327}\u{300}"],["\u{71}\u{327}\u{300}","\u{71}\u{327}\u{300}","\u{71}\u{327}\u{300}","\u{71}\u{327}\u{300}"],["\u{157}\u{300}","\u{72}\u{327}\u{300}","\u{157}\u{300}","\u{72}\u{327}\u{300}"],["\u{15f}\u{300}","\u{73}\u{327}\u{300}","\u{15f}\u{300}","\u{73}\u{327}\u{300}"],["\u{163}\u{300}","\u{74}\u{327}\u{300}","\u{163}\u{300}","\u{74}\u{327}\u{300}"],["\u{f9}\u{327}","\u{75}\u{327}\u{300}","\u{f9}\u{327}","\u{75}\u{327}\u{300}"],["\u{76}\u{327}\u{300}","\u{76}\u{327}\u{300}","\u{76}\u{327}\u{300}","\u{76}\u{327}\u{300}"],["\u{1e81}\u{327}","\u{77}\u{327}\u{300}","\u{1e81}\u{327}","\u{77}\u{327}\u{300}"],["\u{78}\u{327}\u{300}","\u{78}\u{327}\u{300}","\u{78}\u{327}\u{300}","\u{78}\u{327}\u{300}"],["\u{1ef3}\u{327}","\u{79}\u{327}\u{300}","\u{1ef3}\u{327}","\u{79}\u{327}\u{300}"],["\u{7a}\u{327}\u{300}","\u{7a}\u{327}\u{300}","\u{7a}\u{327}\u{300}","\u{7a}\u{327}\u{300}"]],
[["\u{c0}\u{31b}","\u{41}\u{31b}\u{300}","\u{c0}\u{31b}","\u{41}\u{31b}\u{300}"],["\u{42}\u{31b}\u{300}","\u{42}\u{31b}\u{300}","\u{42}\u{31b}\u{300}","\u{42}\u{31b}\u{300}"],["\u{43}\u{31b}\u{300}","\u{43}\u{31b}\u{300}","\u{43}\u{31b}\u{300}","\u{43}\u{31b}\u{300}"],["\u{44}\u{31b}\u{300}","\u{44}\u{31b}\u{300}","\u{44}\u{31b}\u{300}","\u{44}\u{31b}\u{300}"],["\u{c8}\u{31b}","\u{45}\u{31b}\u{300}","\u{c8}\u{31b}","\u{45}\u{31b}\u{300}"],["\u{46}\u{31b}\u{300}","\u{46}\u{31b}\u{300}","\u{46}\u{31b}\u{300}","\u{46}\u{31b}\u{300}"],["\u{47}\u{31b}\u{300}","\u{47}\u{31b}\u{300}","\u{47}\u{31b}\u{300}","\u{47}\u{31b}\u{300}"],["\u{48}\u{31b}\u{300}","\u{48}\u{31b}\u{300}","\u{48}\u{31b}\u{300}","\u{48}\u{31b}\u{300}"],["\u{cc}\u{31b}","\u{49}\u{31b}\u{300}","\u{cc}\u{31b}","\u{49}\u{31b}\u{300}"],["\u{4a}\u{31b}\u{300}","\u{4a}\u{31b}\u{300}","\u{4a}\u{31b}\u{300}","\u{4a}\u{31b}\u{300}"],["\u{4b}\u{31b}\u{300}","\u{4b}\u{31b}\u{300}","\u{4b}\u{31b}\u{300}","\u{4b}\u{31b}\u{300}"],["\u{4c}\u{31b}\u{300}","\u{4c}\u{31b}\u{300}","\u{4c}\u{31b}\u{300}","\u{4c}\u{31b}\u{300}"],["\u{4d}\u{31b}\u{300}","\u{4d}\u{31b}\u{300}","\u{4d}\u{31b}\u{300}","\u{4d}\u{31b}\u{300}"],["\u{1f8}\u{31b}","\u{4e}\u{31b}\u{300}","\u{1f8}\u{31b}","\u{4e}\u{31b}\u{300}"],["\u{1edc}","\u{4f}\u{31b}\u{300}","\u{1edc}","\u{4f}\u{31b}\u{300}"],["\u{50}\u{31b}\u{300}","\u{50}\u{31b}\u{300}","\u{50}\u{31b}\u{300}","\u{50}\u{31b}\u{300}"],["\u{51}\u{31b}\u{300}","\u{51}\u{31b}\u{300}","\u{51}\u{31b}\u{300}","\u{51}\u{31b}\u{300}"],["\u{52}\u{31b}\u{300}","\u{52}\u{31b}\u{300}","\u{52}\u{31b}\u{300}","\u{52}\u{31b}\u{300}"],["\u{53}\u{31b}\u{300}","\u{53}\u{31b}\u{300}","\u{53}\u{31b}\u{300}","\u{53}\u{31b}\u{300}"],["\u{54}\u{31b}\u{300}","\u{54}\u{31b}\u{300}","\u{54}\u{31b}\u{300}","\u{54}\u{31b}\u{300}"],["\u{1eea}","\u{55}\u{31b}\u{300}","\u{1eea}","\u{55}\u{31b}\u{300}"],["\u{56}\u{31b}\u{300}","\u{56}\u{31b}\u{300}","\u{56}\u{31b}\u{300}","\u{56}\u{31b}\u{300}"],["\u{1e80}\u{31b}","\u{57}\u{31b}\u{300}","\u{1e80}\u{31b}","\u{57}\u{31b}\u{300}"],["\u{58}\u{31b}\u{300}","\u{58}\u{31b}\u{300}","\u{58}\u{31b}\u{300}","\u{58}\u{31b}\u{300}"],["\u{1ef2}\u{31b}","\u{59}\u{31b}\u{300}","\u{1ef2}\u{31b}","\u{59}\u{31b}\u{300}"],["\u{5a}\u{31b}\u{300}","\u{5a}\u{31b}\u{300}","\u{5a}\u{31b}\u{300}","\u{5a}\u{31b}\u{300}"],["\u{5b}\u{31b}\u{300}","\u{5b}\u{31b}\u{300}","\u{5b}\u{31b}\u{300}","\u{5b}\u{31b}\u{300}"],["\u{5c}\u{31b}\u{300}","\u{5c}\u{31b}\u{300}","\u{5c}\u{31b}\u{300}","\u{5c}\u{31b}\u{300}"],["\u{5d}\u{31b}\u{300}","\u{5d}\u{31b}\u{300}","\u{5d}\u{31b}\u{300}","\u{5d}\u{31b}\u{300}"],["\u{5e}\u{31b}\u{300}","\u{5e}\u{31b}\u{300}","\u{5e}\u{31b}\u{300}","\u{5e}\u{31b}\u{300}"],["\u{5f}\u{31b}\u{300}","\u{5f}\u{31b}\u{300}","\u{5f}\u{31b}\u{300}","\u{5f}\u{31b}\u{300}"],["\u{60}\u{31b}\u{300}","\u{60}\u{31b}\u{300}","\u{60}\u{31b}\u{300}","\u{60}\u{31b}\u{300}"],["\u{e0}\u{31b}","\u{61}\u{31b}\u{300}","\u{e0}\u{31b}","\u{61}\u{31b}\u{300}"],["\u{62}\u{31b}\u{300}","\u{62}\u{31b}\u{300}","\u{62}\u{31b}\u{300}","\u{62}\u{31b}\u{300}"],["\u{63}\u{31b}\u{300}","\u{63}\u{31b}\u{300}","\u{63}\u{31b}\u{300}","\u{63}\u{31b}\u{300}"],["\u{64}\u{31b}\u{300}","\u{64}\u{31b}\u{300}","\u{64}\u{31b}\u{300}","\u{64}\u{31b}\u{300}"],["\u{e8}\u{31b}","\u{65}\u{31b}\u{300}","\u{e8}\u{31b}","\u{65}\u{31b}\u{300}"],["\u{66}\u{31b}\u{300}","\u{66}\u{31b}\u{300}","\u{66}\u{31b}\u{300}","\u{66}\u{31b}\u{300}"],["\u{67}\u{31b}\u{300}","\u{67}\u{31b}\u{300}","\u{67}\u{31b}\u{300}","\u{67}\u{31b}\u{300}"],["\u{68}\u{31b}\u{300}","\u{68}\u{31b}\u{300}","\u{68}\u{31b}\u{300}","\u{68}\u{31b}\u{300}"],["\u{ec}\u{31b}","\u{69}\u{31b}\u{300}","\u{ec}\u{31b}","\u{69}\u{31b}\u{300}"],["\u{6a}\u{31b}\u{300}","\u{6a}\u{31b}\u{300}","\u{6a}\u{31b}\u{300}","\u{6a}\u{31b}\u{300}"],["\u{6b}\u{31b}\u{300}","\u{6b}\u{31b}\u{300}","\u{6b}\u{31b}\u{300}","\u{6b}\u{31b}\u{300}"],["\u{6c}\u{31b}\u{300}","\u{6c}\u{31b}\u{300}","\u{6c}\u{31b}\u{300}","\u{6c}\u{31b}\u{300}"],["\u{6d}\u{31b}\u{300}","\u{6d}\u{31b}\u{300}","\u{6d}\u{31b}\u{300}","\u{6d}\u{31b}\u{300}"],["\u{1f9}\u{31b}","\u{6e}\u{31b}\u{300}","\u{1f9}\u{31b}","\u{6e}\u{31b}\u{300}"],["\u{1edd}","\u{6f}\u{31b}\u{300}","\u{1edd}","\u{6f}\u{31b}\u{300}"],["\u{70}\u{31b}\u{300}","\u{70}\u{31b}\u{300}","\u{70}\u{31b}\u{300}","\u{70}\u{31b}\u{300}"],["\u{71}\u{31b}\u{300}","\u{71}\u{31b}\u{300}","\u{71}\u{31b}\u{300}","\u{71}\u{31b}\u{300}"],["\u{72}\u{31b}\u{300}","\u{72}\u{31b}\u{300}","\u{72}\u{31b}\u{300}","\u{72}\u{31b}\u{300}"],["\u{73}\u{31b}\u{300}","\u{73}\u{31b}\u{300}","\u{73}\u{31b}\u{300}","\u{73}\u{31b}\u{300}"],["\u{74}\u{31b}\u{300}","\u{74}\u{31b}\u{300}","\u{74}\u{31b}\u{300}","\u{74}\u{31b}\u{300}"],["\u{1eeb}","\u{75}\u{31b}\u{300}","\u{1eeb}","\u{75}\u{31b}\u{300}"],["\u{76}\u{31b}\u{300}","\u{76}\u{31b}\u{300}","\u{76}\u{31b}\u{300}","\u{76}\u{31b}\u{300}"],["\u{1e81}\u{31b}","\u{77}\u{31b}\u{300}","\u{1e81}\u{31b}","\u{77}\u{31b}\u{300}"],["\u{78}\u{31b}\u{300}","\u{78}\u{31b}\u{300}","\u{78}\u{31b}\u{300}","\u{78}\u{31b}\u{300}"],["\u{1ef3}\u{31b}","\u{79}\u{31b}\u{300}","\u{1ef3}\u{31b}","\u{79}\u{31b}\u{300}"],["\u{7a}\u{31b}\u{300}","\u{7a}\u{31b}\u{300}","\u{7a}\u{31b}\u{300}","\u{7a}\u{31b}\u{300}"]],
[["\u{c0}\u{345}","\u{41}\u{300}\u{345}","\u{c0}\u{345}","\u{41}\u{300}\u{345}"],["\u{42}\u{300}\u{345}","\u{42}\u{300}\u{345}","\u{42}\u{300}\u{345}","\u{42}\u{300}\u{345}"],["\u{43}\u{300}\u{345}","\u{43}\u{300}\u{345}","\u{43}\u{300}\u{345}","\u{43}\u{300}\u{345}"],["\u{44}\u{300}\u{345}","\u{44}\u{300}\u{345}","\u{44}\u{300}\u{345}","\u{44}\u{300}\u{345}"],["\u{c8}\u{345}","\u{45}\u{300}\u{345}","\u{c8}\u{345}","\u{45}\u{300}\u{345}"],["\u{46}\u{300}\u{345}","\u{46}\u{300}\u{345}","\u{46}\u{300}\u{345}","\u{46}\u{300}\u{345}"],["\u{47}\u{300}\u{345}","\u{47}\u{300}\u{345}","\u{47}\u{300}\u{345}","\u{47}\u{300}\u{345}"],["\u{48}\u{300}\u{345}","\u{48}\u{300}\u{345}","\u{48}\u{300}\u{345}","\u{48}\u{300}\u{345}"],["\u{cc}\u{345}","\u{49}\u{300}\u{345}","\u{cc}\u{345}","\u{49}\u{300}\u{345}"],["\u{4a}\u{300}\u{345}","\u{4a}\u{300}\u{345}","\u{4a}\u{300}\u{345}","\u{4a}\u{300}\u{345}"],["\u{4b}\u{300}\u{345}","\u{4b}\u{300}\u{345}","\u{4b}\u{300}\u{345}","\u{4b}\u{300}\u{345}"],["\u{4c}\u{300}\u{345}","\u{4c}\u{300}\u{345}","\u{4c}\u{300}\u{345}","\u{4c}\u{300}\u{345}"],["\u{4d}\u{300}\u{345}","\u{4d}\u{300}\u{345}","\u{4d}\u{300}\u{345}","\u{4d}\u{300}\u{345}"],["\u{1f8}\u{345}","\u{4e}\u{300}\u{345}","\u{1f8}\u{345}","\u{4e}\u{300}\u{345}"],["\u{d2}\u{345}","\u{4f}\u{300}\u{345}","\u{d2}\u{345}","\u{4f}\u{300}\u{345}"],["\u{50}\u{300}\u{345}","\u{50}\u{300}\u{345}","\u{50}\u{300}\u{345}","\u{50}\u{300}\u{345}"],["\u{51}\u{300}\u{345}","\u{51}\u{300}\u{345}","\u{51}\u{300}\u{345}","\u{51}\u{300}\u{345}"],["\u{52}\u{300}\u{345}","\u{52}\u{300}\u{345}","\u{52}\u{300}\u{345}","\u{52}\u{300}\u{345}"],["\u{53}\u{300}\u{345}","\u{53}\u{300}\u{345}","\u{53}\u{300}\u{345}","\u{53}\u{300}\u{345}"],["\u{54}\u{300}\u{345}","\u{54}\u{300}\u{345}","\u{54}\u{300}\u{345}","\u{54}\u{300}\u{345}"],["\u{d9}\u{345}","\u{55}\u{300}\u{345}","\u{d9}\u{345}","\u{55}\u{300}\u{345}"],["\u{56}\u{300}\u{345}","\u{56}\u{300}\u{345}","\u{56}\u{300}\u{345}","\u{56}\u{300}\u{345}"],["\u{1e80}\u{345}","\u{57}\u{300}\u{345}","\u{1e80}\u{345}","\u{57}\u{300}\u{345}"],["\u{58}\u{300}\u{345}","\u{58}\u{300}\u{345}","\u{58}\u{300}\u{345}","\u{58}\u{300}\u{345}"],["\u{1ef2}\u{345}","\u{59}\u{300}\u{345}","\u{1ef2}\u{345}","\u{59}\u{300}\u{345}"],["\u{5a}\u{300}\u{345}","\u{5a}\u{300}\u{345}","\u{5a}\u{300}\u{345}","\u{5a}\u{300}\u{345}"],["\u{5b}\u{300}\u{345}","\u{5b}\u{300}\u{345}","\u{5b}\u{300}\u{345}","\u{5b}\u{300}\u{345}"],["\u{5c}\u{300}\u{345}","\u{5c}\u{300}\u{345}","\u{5c}\u{300}\u{345}","\u{5c}\u{300}\u{345}"],["\u{5d}\u{300}\u{345}","\u{5d}\u{300}\u{345}","\u{5d}\u{300}\u{345}","\u{5d}\u{300}\u{345}"],["\u{5e}\u{300}\u{345}","\u{5e}\u{300}\u{345}","\u{5e}\u{300}\u{345}","\u{5e}\u{300}\u{345}"],["\u{5f}\u{300}\u{345}","\u{5f}\u{300}\u{345}","\u{5f}\u{300}\u{345}","\u{5f}\u{300}\u{345}"],["\u{60}\u{300}\u{345}","\u{60}\u{300}\u{345}","\u{60}\u{300}\u{345}","\u{60}\u{300}\u{345}"],["\u{e0}\u{345}","\u{61}\u{300}\u{345}","\u{e0}\u{345}","\u{61}\u{300}\u{345}"],["\u{62}\u{300}\u{345}","\u{62}\u{300}\u{345}","\u{62}\u{300}\u{345}","\u{62}\u{300}\u{345}"],["\u{63}\u{300}\u{345}","\u{63}\u{300}\u{345}","\u{63}\u{300}\u{345}","\u{63}\u{300}\u{345}"],["\u{64}\u{300}\u{345}","\u{64}\u{300}\u{345}","\u{64}\u{300}\u{345}","\u{64}\u{300}\u{345}"],["\u{e8}\u{345}","\u{65}\u{300}\u{345}","\u{e8}\u{345}","\u{65}\u{300}\u{345}"],["\u{66}\u{300}\u{345}","\u{66}\u{300}\u{345}","\u{66}\u{300}\u{345}","\u{66}\u{300}\u{345}"],["\u{67}\u{300}\u{345}","\u{67}\u{300}\u{345}","\u{67}\u{300}\u{345}","\u{67}\u{300}\u{345}"],["\u{68}\u{300}\u{345}","\u{68}\u{300}\u{345}","\u{68}\u{300}\u{345}","\u{68}\u{300}\u{345}"],["\u{ec}\u{345}","\u{69}\u{300}\u{345}","\u{ec}\u{345}","\u{69}\u{300}\u{345}"],["\u{6a}\u{300}\u{345}","\u{6a}\u{300}\u{345}","\u{6a}\u{300}\u{345}","\u{6a}\u{300}\u{345}"],["\u{6b}\u{300}\u{345}","\u{6b}\u{300}\u{345}","\u{6b}\u{300}\u{345}","\u{6b}\u{300}\u{345}"],["\u{6c}\u{300}\u{345}","\u{6c}\u{300}\u{345}","\u{6c}\u{300}\u{345}","\u{6c}\u{300}\u{345}"],["\u{6d}\u{300}\u{345}","\u{6d}\u{300}\u{345}","\u{6d}\u{300}\u{345}","\u{6d}\u{300}\u{345}"],["\u{1f9}\u{345}","\u{6e}\u{300}\u{345}","\u{1f9}\u{345}","\u{6e}\u{300}\u{345}"],["\u{f2}\u{345}","\u{6f}\u{300}\u{345}","\u{f2}\u{345}","\u{6f}\u{300}\u{345}"],["\u{70}\u{300}\u{345}","\u{70}\u{300}\u{345}","\u{70}\u{300}\u{345}","\u{70}\u{300}\u{345}"],["\u{71}\u{300}\u{345}","\u{71}\u{300}\u{345}","\u{71}\u{300}\u{345}","\u{71}\u{300}\u{345}"],["\u{72}\u{300}\u{345}","\u{72}\u{300}\u{345}","\u{72}\u{300}\u{345}","\u{72}\u{300}\u{345}"],["\u{73}\u{300}\u{345}","\u{73}\u{300}\u{345}","\u{73}\u{300}\u{345}","\u{73}\u{300}\u{345}"],["\u{74}\u{300}\u{345}","\u{74}\u{300}\u{345}","\u{74}\u{300}\u{345}","\u{74}\u{300}\u{345}"],["\u{f9}\u{345}","\u{75}\u{300}\u{345}","\u{f9}\u{345}","\u{75}\u{300}\u{345}"],["\u{76}\u{300}\u{345}","\u{76}\u{300}\u{345}","\u{76}\u{300}\u{345}","\u{76}\u{300}\u{345}"],["\u{1e81}\u{345}","\u{77}\u{300}\u{345}","\u{1e81}\u{345}","\u{77}\u{300}\u{345}"],["\u{78}\u{300}\u{345}","\u{78}\u{300}\u{345}","\u{78}\u{300}\u{345}","\u{78}\u{300}\u{345}"],["\u{1ef3}\u{345}","\u{79}\u{300}\u{345}","\u{1ef3}\u{345}","\u{79}\u{300}\u{345}"],["\u{7a}\u{300}\u{345}","\u{7a}\u{300}\u{345}","\u{7a}\u{300}\u{345}","\u{7a}\u{300}\u{345}"]],
[["\u{c0}\u{20d2}","\u{41}\u{20d2}\u{300}","\u{c0}\u{20d2}","\u{41}\u{20d2}\u{300}"],["\u{42}\u{20d2}\u{300}","\u{42}\u{20d2}\u{300}","\u{42}\u{20d2}\u{300}","\u{42}\u{20d2}\u{300}"],["\u{43}\u{20d2}\u{300}","\u{43}\u{20d2}\u{300}","\u{43}\u{20d2}\u{300}","\u{43}\u{20d2}\u{300}"],["\u{44}\u{20d2}\u{300}","\u{44}\u{20d2}\u{300}","\u{44}\u{20d2}\u{300}","\u{44}\u{20d2}\u{300}"],["\u{c8}\u{20d2}","\u{45}\u{20d2}\u{300}","\u{c8}\u{20d2}","\u{45}\u{20d2}\u{300}"],["\u{46}\u{20d2}\u{300}","\u{46}\u{20d2}\u{300}","\u{46}\u{20d2}\u{300}","\u{46}\u{20d2}\u{300}"],["\u{47}\u{20d2}\u{300}","\u{47}\u{20d2}\u{300}","\u{47}\u{20d2}\u{300}","\u{47}\u{20d2}\u{300}"],["\u{48}\u{20d2}\u{300}","\u{48}\u{20d2}\u{300}","\u{48}\u{20d2}\u{300}","\u{48}\u{20d2}\u{300}"],["\u{cc}\u{20d2}","\u{49}\u{20d2}\u{300}","\u{cc}\u{20d2}","\u{49}\u{20d2}\u{300}"],["\u{4a}\u{20d2}\u{300}","\u{4a}\u{20d2}\u{300}","\u{4a}\u{20d2}\u{300}","\u{4a}\u{20d2}\u{300}"],["\u{4b}\u{20d2}\u{300}","\u{4b}\u{20d2}\u{300}","\u{4b}\u{20d2}\u{300}","\u{4b}\u{20d2}\u{300}"],["\u{4c}\u{20d2}\u{300}","\u{4c}\u{20d2}\u{300}","\u{4c}\u{20d2}\u{300}","\u{4c}\u{20d2}\u{300}"],["\u{4d}\u{20d2}\u{300}","\u{4d}\u{20d2}\u{300}","\u{4d}\u{20d2}\u{300}","\u{4d}\u{20d2}\u{300}"],["\u{1f8}\u{20d2}","\u{4e}\u{20d2}\u{300}","\u{1f8}\u{20d2}","\u{4e}\u{20d2}\u{300}"],["\u{d2}\u{20d2}","\u{4f}\u{20d2}\u{300}","\u{d2}\u{20d2}","\u{4f}\u{20d2}\u{300}"],["\u{50}\u{20d2}\u{300}","\u{50}\u{20d2}\u{300}","\u{50}\u{20d2}\u{300}","\u{50}\u{20d2}\u{300}"],["\u{51}\u{20d2}\u{300}","\u{51}\u{20d2}\u{300}","\u{51}\u{20d2}\u{300}","\u{51}\u{20d2}\u{300}"],["\u{52}\u{20d2}\u{300}","\u{52}\u{20d2}\u{300}","\u{52}\u{20d2}\u{300}","\u{52}\u{20d2}\u{300}"],["\u{53}\u{20d2}\u{300}","\u{53}\u{20d2}\u{300}","\u{53}\u{20d2}\u{300}","\u{53}\u{20d2}\u{300}"],["\u{54}\u{20d2}\u{300}","\u{54}\u{20d2}\u{300}","\u{54}\u{20d2}\u{300}","\u{54}\u{20d2}\u{300}"],["\u{d9}\u{20d2}","\u{55}\u{20d2}\u{300}","\u{d9}\u{20d2}","\u{55}\u{20d2}\u{300}"],["\u{56}\u{20d2}\u{300}","\u{56}\u{20d2}\u{300}","\u{56}\u{20d2}\u{300}","\u{56}\u{20d2}\u{300}"],["\u{1e80}\u{20d2}","\u{57}\u{20d2}\u{300}","\u{1e80}\u{20d2}","\u{57}\u{20d2}\u{300}"],["\u{58}\u{20d2}\u{300}","\u{58}\u{20d2}\u{300}","\u{58}\u{20d2}\u{300}","\u{58}\u{20d2}\u{300}"],["\u{1ef2}\u{20d2}","\u{59}\u{20d2}\u{300}","\u{1ef2}\u{20d2}","\u{59}\u{20d2}\u{300}"],["\u{5a}\u{20d2}\u{300}","\u{5a}\u{20d2}\u{300}","\u{5a}\u{20d2}\u{300}","\u{5a}\u{20d2}\u{300}"],["\u{5b}\u{20d2}\u{300}","\u{5b}\u{20d2}\u{300}","\u{5b}\u{20d2}\u{300}","\u{5b}\u{20d2}\u{300}"],["\u{5c}\u{20d2}\u{300}","\u{5c}\u{20d2}\u{300}","\u{5c}\u{20d2}\u{300}","\u{5c}\u{20d2}\u{300}"],["\u{5d}\u{20d2}\u{300}","\u{5d}\u{20d2}\u{300}","\u{5d}\u{20d2}\u{300}","\u{5d}\u{20d2}\u{300}"],["\u{5e}\u{20d2}\u{300}","\u{5e}\u{20d2}\u{300}","\u{5e}\u{20d2}\u{300}","\u{5e}\u{20d2}\u{300}"],["\u{5f}\u{20d2}\u{300}","\u{5f}\u{20d2}\u{300}","\u{5f}\u{20d2}\u{300}","\u{5f}\u{20d2}\u{300}"],["\u{60}\u{20d2}\u{300}","\u{60}\u{20d2}\u{300}","\u{60}\u{20d2}\u{300}","\u{60}\u{20d2}\u{300}"],["\u{e0}\u{20d2}","\u{61}\u{20d2}\u{300}","\u{e0}\u{20d2}","\u{61}\u{20d2}\u{300}"],["\u{62}\u{20d2}\u{300}","\u{62}\u{20d2}\u{300}","\u{62}\u{20d2}\u{300}","\u{62}\u{20d2}\u{300}"],["\u{63}\u{20d2}\u{300}","\u{63}\u{20d2}\u{300}","\u{63}\u{20d2}\u{300}","\u{63}\u{20d2}\u{300}"],["\u{64}\u{20d2}\u{300}","\u{64}\u{20d2}\u{300}","\u{64}\u{20d2}\u{300}","\u{64}\u{20d2}\u{300}"],["\u{e8}\u{20d2}","\u{65}\u{20d2}\u{300}","\u{e8}\u{20d2}","\u{65}\u{20d2}\u{300}"],["\u{66}\u{20d2}\u{300}","\u{66}\u{20d2}\u{300}","\u{66}\u{20d2}\u{300}","\u{66}\u{20d2}\u{300}"],["\u{67}\u{20d2}\u{300}","\u{67}\u{20d2}\u{300}","\u{67}\u{20d2}\u{300}","\u{67}\u{20d2}\u{300}"],["\u{68}\u{20d2}\u{300}","\u{68}\u{20d2}\u{300}","\u{68}\u{20d2}\u{300}","\u{68}\u{20d2}\u{300}"],["\u{ec}\u{20d2}","\u{69}\u{20d2}\u{300}","\u{ec}\u{20d2}","\u{69}\u{20d2}\u{300}"],["\u{6a}\u{20d2}\u{300}","\u{6a}\u{20d2}\u{300}","\u{6a}\u{20d2}\u{300}","\u{6a}\u{20d2}\u{300}"],["\u{6b}\u{20d2}\u{300}","\u{6b}\u{20d2}\u{300}","\u{6b}\u{20d2}\u{300}","\u{6b}\u{20d2}\u{300}"],["\u{6c}\u{20d2}\u{300}","\u{6c}\u{20d2}\u{300}","\u{6c}\u{20d2}\u{300}","\u{6c}\u{20d2}\u{300}"],["\u{6d}\u{20d2}\u{300}","\u{6d}\u{20d2}\u{300}","\u{6d}\u{20d2}\u{300}","\u{6d}\u{20d2}\u{300}"],["\u{1f9}\u{20d2}","\u{6e}\u{20d2}\u{300}","\u{1f9}\u{20d2}","\u{6e}\u{20d2}\u{300}"],["\u{f2}\u{20d2}","\u{6f}\u{20d2}\u{300}","\u{f2}\u{20d2}","\u{6f}\u{20d2}\u{300}"],["\u{70}\u{20d2}\u{300}","\u{70}\u{20d2}\u{300}","\u{70}\u{20d2}\u{300}","\u{70}\u{20d2}\u{300}"],["\u{71}\u{20d2}\u{300}","\u{71}\u{20d2}\u{300}","\u{71}\u{20d2}\u{300}","\u{71}\u{20d2}\u{300}"],["\u{72}\u{20d2}\u{300}","\u{72}\u{20d2}\u{300}","\u{72}\u{20d2}\u{300}","\u{72}\u{20d2}\u{300}"],["\u{73}\u{20d2}\u{300}","\u{73}\u{20d2}\u{300}","\u{73}\u{20d2}\u{300}","\u{73}\u{20d2}\u{300}"],["\u{74}\u{20d2}\u{300}","\u{74}\u{20d2}\u{300}","\u{74}\u{20d2}\u{300}","\u{74}\u{20d2}\u{300}"],["\u{f9}\u{20d2}","\u{75}\u{20d2}\u{300}","\u{f9}\u{20d2}","\u{75}\u{20d2}\u{300}"],["\u{76}\u{20d2}\u{300}","\u{76}\u{20d2}\u{300}","\u{76}\u{20d2}\u{300}","\u{76}\u{20d2}\u{300}"],["\u{1e81}\u{20d2}","\u{77}\u{20d2}\u{300}","\u{1e81}\u{20d2}","\u{77}\u{20d2}\u{300}"],["\u{78}\u{20d2}\u{300}","\u{78}\u{20d2}\u{300}","\u{78}\u{20d2}\u{300}","\u{78}\u{20d2}\u{300}"],["\u{1ef3}\u{20d2}","\u{79}\u{20d2}\u{300}","\u{1ef3}\u{20d2}","\u{79}\u{20d2}\u{300}"],["\u{7a}\u{20d2}\u{300}","\u{7a}\u{20d2}\u{300}","\u{7a}\u{20d2}\u{300}","\u{7a}\u{20d2}\u{300}"]],
[["\u{c1}\u{300}","\u{41}\u{301}\u{300}","\u{c1}\u{300}","\u{41}\u{301}\u{300}"],["\u{42}\u{301}\u{300}","\u{42}\u{301}\u{300}","\u{42}\u{301}\u{300}","\u{42}\u{301}\u{300}"],["\u{106}\u{300}","\u{43}\u{301}\u{300}","\u{106}\u{300}","\u{43}\u{301}\u{300}"],["\u{44}\u{301}\u{300}","\u{44}\u{301}\u{300}","\u{44}\u{301}\u{300}","\u{44}\u{301}\u{300}"],["\u{c9}\u{300}","\u{45}\u{301}\u{300}","\u{c9}\u{300}","\u{45}\u{301}\u{300}"],["\u{46}\u{301}\u{300}","\u{46}\u{301}\u{300}","\u{46}\u{301}\u{300}","\u{46}\u{301}\u{300}"],["\u{1f4}\u{300}","\u{47}\u{301}\u{300}","\u{1f4}\u{300}","\u{47}\u{301}\u{300}"],["\u{48}\u{301}\u{300}","\u{48}\u{301}\u{300}","\u{48}\u{301}\u{300}","\u{48}\u{301}\u{300}"],["\u{cd}\u{300}","\u{49}\u{301}\u{300}","\u{cd}\u{300}","\u{49}\u{301}\u{300}"],["\u{4a}\u{301}\u{300}","\u{4a}\u{301}\u{300}","\u{4a}\u{301}\u{300}","\u{4a}\u{301}\u{300}"],["\u{1e30}\u{300}","\u{4b}\u{301}\u{300}","\u{1e30}\u{300}","\u{4b}\u{301}\u{300}"],["\u{139}\u{300}","\u{4c}\u{301}\u{300}","\u{139}\u{300}","\u{4c}\u{301}\u{300}"],["\u{1e3e}\u{300}","\u{4d}\u{301}\u{300}","\u{1e3e}\u{300}","\u{4d}\u{301}\u{300}"],["\u{143}\u{300}","\u{4e}\u{301}\u{300}","\u{143}\u{300}","\u{4e}\u{301}\u{300}"],["\u{d3}\u{300}","\u{4f}\u{301}\u{300}","\u{d3}\u{300}","\u{4f}\u{301}\u{300}"],["\u{1e54}\u{300}","\u{50}\u{301}\u{300}","\u{1e54}\u{300}","\u{50}\u{301}\u{300}"],["\u{51}\u{301}\u{300}","\u{51}\u{301}\u{300}","\u{51}\u{301}\u{300}","\u{51}\u{301}\u{300}"],["\u{154}\u{300}","\u{52}\u{301}\u{300}","\u{154}\u{300}","\u{52}\u{301}\u{300}"],["\u{15a}\u{300}","\u{53}\u{301}\u{300}","\u{15a}\u{300}","\u{53}\u{301}\u{300}"],["\u{54}\u{301}\u{300}","\u{54}\u{301}\u{300}","\u{54}\u{301}\u{300}","\u{54}\u{301}\u{300}"],["\u{da}\u{300}","\u{55}\u{301}\u{300}","\u{da}\u{300}","\u{55}\u{301}\u{300}"],["\u{56}\u{301}\u{300}","\u{56}\u{301}\u{300}","\u{56}\u{301}\u{300}","\u{56}\u{301}\u{300}"],["\u{1e82}\u{300}","\u{57}\u{301}\u{300}","\u{1e82}\u{300}","\u{57}\u{301}\u{300}"],["\u{58}\u{301}\u{300}","\u{58}\u{301}\u{300}","\u{58}\u{301}\u{300}","\u{58}\u{301}\u{300}"],["\u{dd}\u{300}","\u{59}\u{301}\u{300}","\u{dd}\u{300}","\u{59}\u{301}\u{300}"],["\u{179}\u{300}","\u{5a}\u{301}\u{300}","\u{179}\u{300}","\u{5a}\u{301}\u{300}"],["\u{5b}\u{301}\u{300}","\u{5b}\u{301}\u{300}","\u{5b}\u{301}\u{300}","\u{5b}\u{301}\u{300}"],["\u{5c}\u{301}\u{300}","\u{5c}\u{301}\u{300}","\u{5c}\u{301}\u{300}","\u{5c}\u{301}\u{300}"],["\u{5d}\u{301}\u{300}","\u{5d}\u{301}\u{300}","\u{5d}\u{301}\u{300}","\u{5d}\u{301}\u{300}"],["\u{5e}\u{301}\u{300}","\u{5e}\u{301}\u{300}","\u{5e}\u{301}\u{300}","\u{5e}\u{301}\u{300}"],["\u{5f}\u{301}\u{300}","\u{5f}\u{301}\u{300}","\u{5f}\u{301}\u{300}","\u{5f}\u{301}\u{300}"],["\u{60}\u{301}\u{300}","\u{60}\u{301}\u{300}","\u{60}\u{301}\u{300}","\u{60}\u{301}\u{300}"],["\u{e1}\u{300}","\u{61}\u{301}\u{300}","\u{e1}\u{300}","\u{61}\u{301}\u{300}"],["\u{62}\u{301}\u{300}","\u{62}\u{301}\u{300}","\u{62}\u{301}\u{300}","\u{62}\u{301}\u{300}"],["\u{107}\u{300}","\u{63}\u{301}\u{300}","\u{107}\u{300}","\u{63}\u{301}\u{300}"],["\u{64}\u{301}\u{300}","\u{64}\u{301}\u{300}","\u{64}\u{301}\u{300}","\u{64}\u{301}\u{300}"],["\u{e9}\u{300}","\u{65}\u{301}\u{300}","\u{e9}\u{300}","\u{65}\u{301}\u{300}"],["\u{66}\u{301}\u{300}","\u{66}\u{301}\u{300}","\u{66}\u{301}\u{300}","\u{66}\u{301}\u{300}"],["\u{1f5}\u{300}","\u{67}\u{301}\u{300}","\u{1f5}\u{300}","\u{67}\u{301}\u{300}"],["\u{68}\u{301}\u{300}","\u{68}\u{301}\u{300}","\u{68}\u{301}\u{300}","\u{68}\u{301}\u{300}"],["\u{ed}\u{300}","\u{69}\u{301}\u{300}","\u{ed}\u{300}","\u{69}\u{301}\u{300}"],["\u{6a}\u{301}\u{300}","\u{6a}\u{301}\u{300}","\u{6a}\u{301}\u{300}","\u{6a}\u{301}\u{300}"],["\u{1e31}\u{300}","\u{6b}\u{301}\u{300}","\u{1e31}\u{300}","\u{6b}\u{301}\u{300}"],["\u{13a}\u{300}","\u{6c}\u{301}\u{300}","\u{13a}\u{300}","\u{6c}\u{301}\u{300}"],["\u{1e3f}\u{300}","\u{6d}\u{301}\u{300}","\u{1e3f}\u{300}","\u{6d}\u{301}\u{300}"],["\u{144}\u{300}","\u{6e}\u{301}\u{300}","\u{144}\u{300}","\u{6e}\u{301}\u{300}"],["\u{f3}\u{300}","\u{6f}\u{301}\u{300}","\u{f3}\u{300}","\u{6f}\u{301}\u{300}"],["\u{1e55}\u{300}","\u{70}\u{301}\u{300}","\u{1e55}\u{300}","\u{70}\u{301}\u{300}"],["\u{71}\u{301}\u{300}","\u{71}\u{301}\u{300}","\u{71}\u{301}\u{300}","\u{71}\u{301}\u{300}"],["\u{155}\u{300}","\u{72}\u{301}\u{300}","\u{155}\u{300}","\u{72}\u{301}\u{300}"],["\u{15b}\u{300}","\u{73}\u{301}\u{300}","\u{15b}\u{300}","\u{73}\u{301}\u{300}"],["\u{74}\u{301}\u{300}","\u{74}\u{301}\u{300}","\u{74}\u{301}\u{300}","\u{74}\u{301}\u{300}"],["\u{fa}\u{300}","\u{75}\u{301}\u{300}","\u{fa}\u{300}","\u{75}\u{301}\u{300}"],["\u{76}\u{301}\u{300}","\u{76}\u{301}\u{300}","\u{76}\u{301}\u{300}","\u{76}\u{301}\u{300}"],["\u{1e83}\u{300}","\u{77}\u{301}\u{300}","\u{1e83}\u{300}","\u{77}\u{301}\u{300}"],["\u{78}\u{301}\u{300}","\u{78}\u{301}\u{300}","\u{78}\u{301}\u{300}","\u{78}\u{301}\u{300}"],["\u{fd}\u{300}","\u{79}\u{301}\u{300}","\u{fd}\u{300}","\u{79}\u{301}\u{300}"],["\u{17a}\u{300}","\u{7a}\u{301}\u{300}","\u{17a}\u{300}","\u{7a}\u{301}\u{300}"]],
[["\u{c1}\u{301}","\u{41}\u{301}\u{301}","\u{c1}\u{301}","\u{41}\u{301}\u{301}"],["\u{42}\u{301}\u{301}","\u{42}\u{301}\u{301}","\u{42}\u{301}\u{301}","\u{42}\u{301}\u{301}"],["\u{106}\u{301}","\u{43}\u{301}\u{301}","\u{106}\u{301}","\u{43}\u{301}\u{301}"],["\u{44}\u{301}\u{301}","\u{44}\u{301}\u{301}","\u{44}\u{301}\u{301}","\u{44}\u{301}\u{301}"],["\u{c9}\u{301}","\u{45}\u{301}\u{301}","\u{c9}\u{301}","\u{45}\u{301}\u{301}"],["\u{46}\u{301}\u{301}","\u{46}\u{301}\u{301}","\u{46}\u{301}\u{301}","\u{46}\u{301}\u{301}"],["\u{1f4}\u{301}","\u{47}\u{301}\u{301}","\u{1f4}\u{301}","\u{47}\u{301}\u{301}"],["\u{48}\u{301}\u{301}","\u{48}\u{301}\u{301}","\u{48}\u{301}\u{301}","\u{48}\u{301}\u{301}"],["\u{cd}\u{301}","\u{49}\u{301}\u{301}","\u{cd}\u{301}","\u{49}\u{301}\u{301}"],["\u{4a}\u{301}\u{301}","\u{4a}\u{301}\u{301}","\u{4a}\u{301}\u{301}","\u{4a}\u{301}\u{301}"],["\u{1e30}\u{301}","\u{4b}\u{301}\u{301}","\u{1e30}\u{301}","\u{4b}\u{301}\u{301}"],["\u{139}\u{301}","\u{4c}\u{301}\u{301}","\u{139}\u{301}","\u{4c}\u{301}\u{301}"],["\u{1e3e}\u{301}","\u{4d}\u{301}\u{301}","\u{1e3e}\u{301}","\u{4d}\u{301}\u{301}"],["\u{143}\u{301}","\u{4e}\u{301}\u{301}","\u{143}\u{301}","\u{4e}\u{301}\u{301}"],["\u{d3}\u{301}","\u{4f}\u{301}\u{301}","\u{d3}\u{301}","\u{4f}\u{301}\u{301}"],["\u{1e54}\u{301}","\u{50}\u{301}\u{301}","\u{1e54}\u{301}","\u{50}\u{301}\u{301}"],["\u{51}\u{301}\u{301}","\u{51}\u{301}\u{301}","\u{51}\u{301}\u{301}","\u{51}\u{301}\u{301}"],["\u{154}\u{301}","\u{52}\u{301}\u{301}","\u{154}\u{301}","\u{52}\u{301}\u{301}"],["\u{15a}\u{301}","\u{53}\u{301}\u{301}","\u{15a}\u{301}","\u{53}\u{301}\u{301}"],["\u{54}\u{301}\u{301}","\u{54}\u{301}\u{301}","\u{54}\u{301}\u{301}","\u{54}\u{301}\u{301}"],["\u{da}\u{301}","\u{55}\u{301}\u{301}","\u{da}\u{301}","\u{55}\u{301}\u{301}"],["\u{56}\u{301}\u{301}","\u{56}\u{301}\u{301}","\u{56}\u{301}\u{301}","\u{56}\u{301}\u{301}"],["\u{1e82}\u{301}","\u{57}\u{301}\u{301}","\u{1e82}\u{301}","\u{57}\u{301}\u{301}"],["\u{58}\u{301}\u{301}","\u{58}\u{301}\u{301}","\u{58}\u{301}\u{301}","\u{58}\u{301}\u{301}"],["\u{dd}\u{301}","\u{59}\u{301}\u{301}","\u{dd}\u{301}","\u{59}\u{301}\u{301}"],["\u{179}\u{301}","\u{5a}\u{301}\u{301}","\u{179}\u{301}","\u{5a}\u{301}\u{301}"],["\u{5b}\u{301}\u{301}","\u{5b}\u{301}\u{301}","\u{5b}\u{301}\u{301}","\u{5b}\u{301}\u{301}"],["\u{5c}\u{301}\u{301}","\u{5c}\u{301}\u{301}","\u{5c}\u{301}\u{301}","\u{5c}\u{301}\u{301}"],["\u{5d}\u{301}\u{301}","\u{5d}\u{301}\u{301}","\u{5d}\u{301}\u{301}","\u{5d}\u{301}\u{301}"],["\u{5e}\u{301}\u{301}","\u{5e}\u{301}\u{301}","\u{5e}\u{301}\u{301}","\u{5e}\u{301}\u{301}"],["\u{5f}\u{301}\u{301}","\u{5f}\u{301}\u{301}","\u{5f}\u{301}\u{301}","\u{5f}\u{301}\u{301}"],["\u{60}\u{301}\u{301}","\u{60}\u{301}\u{301}","\u{60}\u{301}\u{301}","\u{60}\u{301}\u{301}"],["\u{e1}\u{301}","\u{61}\u{301}\u{301}","\u{e1}\u{301}","\u{61}\u{301}\u{301}"],["\u{62}\u{301}\u{301}","\u{62}\u{301}\u{301}","\u{62}\u{301}\u{301}","\u{62}\u{301}\u{301}"],["\u{107}\u{301}","\u{63}\u{301}\u{301}","\u{107}\u{301}","\u{63}\u{301}\u{301}"],["\u{64}\u{301}\u{301}","\u{64}\u{301}\u{301}","\u{64}\u{301}\u{301}","\u{64}\u{301}\u{301}"],["\u{e9}\u{301}","\u{65}\u{301}\u{301}","\u{e9}\u{301}","\u{65}\u{301}\u{301}"],["\u{66}\u{301}\u{301}","\u{66}\u{301}\u{301}","\u{66}\u{301}\u{301}","\u{66}\u{301}\u{301}"],["\u{1f5}\u{301}","\u{67}\u{301}\u{301}","\u{1f5}\u{301}","\u{67}\u{301}\u{301}"],["\u{68}\u{301}\u{301}","\u{68}\u{301}\u{301}","\u{68}\u{301}\u{301}","\u{68}\u{301}\u{301}"],["\u{ed}\u{301}","\u{69}\u{301}\u{301}","\u{ed}\u{301}","\u{69}\u{301}\u{301}"],["\u{6a}\u{301}\u{301}","\u{6a}\u{301}\u{301}","\u{6a}\u{301}\u{301}","\u{6a}\u{301}\u{301}"],["\u{1e31}\u{301}","\u{6b}\u{301}\u{301}","\u{1e31}\u{301}","\u{6b}\u{301}\u{301}"],["\u{13a}\u{301}","\u{6c}\u{301}\u{301}","\u{13a}\u{301}","\u{6c}\u{301}\u{301}"],["\u{1e3f}\u{301}","\u{6d}\u{301}\u{301}","\u{1e3f}\u{301}","\u{6d}\u{301}\u{301}"],["\u{144}\u{301}","\u{6e}\u{301}\u{301}","\u{144}\u{301}","\u{6e}\u{301}\u{301}"],["\u{f3}\u{301}","\u{6f}\u{301}\u{301}","\u{f3}\u{301}","\u{6f}\u{301}\u{301}"],["\u{1e55}\u{301}","\u{70}\u{301}\u{301}","\u{1e55}\u{301}","\u{70}\u{301}\u{301}"],["\u{71}\u{301}\u{301}","\u{71}\u{301}\u{301}","\u{71}\u{301}\u{301}","\u{71}\u{301}\u{301}"],["\u{155}\u{301}","\u{72}\u{301}\u{301}","\u{155}\u{301}","\u{72}\u{301}\u{301}"],["\u{15b}\u{301}","\u{73}\u{301}\u{301}","\u{15b}\u{301}","\u{73}\u{301}\u{301}"],["\u{74}\u{301}\u{301}","\u{74}\u{301}\u{301}","\u{74}\u{301}\u{301}","\u{74}\u{301}\u{301}"],["\u{fa}\u{301}","\u{75}\u{301}\u{301}","\u{fa}\u{301}","\u{75}\u{301}\u{301}"],["\u{76}\u{301}\u{301}","\u{76}\u{301}\u{301}","\u{76}\u{301}\u{301}","\u{76}\u{301}\u{301}"],["\u{1e83}\u{301}","\u{77}\u{301}\u{301}","\u{1e83}\u{301}","\u{77}\u{301}\u{301}"],["\u{78}\u{301}\u{301}","\u{78}\u{301}\u{301}","\u{78}\u{301}\u{301}","\u{78}\u{301}\u{301}"],["\u{fd}\u{301}","\u{79}\u{301}\u{301}","\u{fd}\u{301}","\u{79}\u{301}\u{301}"],["\u{17a}\u{301}","\u{7a}\u{301}\u{301}","\u{17a}\u{301}","\u{7a}\u{301}\u{301}"]],
[["\u{c1}\u{302}","\u{41}\u{301}\u{302}","\u{c1}\u{302}","\u{41}\u{301}\u{302}"],["\u{42}\u{301}\u{302}","\u{42}\u{301}\u{302}","\u{42}\u{301}\u{302}","\u{42}\u{301}\u{302}"],["\u{106}\u{302}","\u{43}\u{301}\u{302}","\u{106}\u{302}","\u{43}\u{301}\u{302}"],["\u{44}\u{301}\u{302}","\u{44}\u{301}\u{302}","\u{44}\u{301}\u{302}","\u{44}\u{301}\u{302}"],["\u{c9}\u{302}","\u{45}\u{301}\u{302}","\u{c9}\u{302}","\u{45}\u{301}\u{302}"],["\u{46}\u{301}\u{302}","\u{46}\u{301}\u{302}","\u{46}\u{301}\u{302}","\u{46}\u{301}\u{302}"],["\u{1f4}\u{302}","\u{47}\u{301}\u{302}","\u{1f4}\u{302}","\u{47}\u{301}\u{302}"],["\u{48}\u{301}\u{302}","\u{48}\u{301}\u{302}","\u{48}\u{301}\u{302}","\u{48}\u{301}\u{302}"],["\u{cd}\u{302}","\u{49}\u{301}\u{302}","\u{cd}\u{302}","\u{49}\u{301}\u{302}"],["\u{4a}\u{301}\u{302}","\u{4a}\u{301}\u{302}","\u{4a}\u{301}\u{302}","\u{4a}\u{301}\u{302}"],["\u{1e30}\u{302}","\u{4b}\u{301}\u{302}","\u{1e30}\u{302}","\u{4b}\u{301}\u{302}"],["\u{139}\u{302}","\u{4c}\u{301}\u{302}","\u{139}\u{302}","\u{4c}\u{301}\u{302}"],["\u{1e3e}\u{302}","\u{4d}\u{301}\u{302}","\u{1e3e}\u{302}","\u{4d}\u{301}\u{302}"],["\u{143}\u{302}","\u{4e}\u{301}\u{302}","\u{143}\u{302}","\u{4e}\u{301}\u{302}"],["\u{d3}\u{302}","\u{4f}\u{301}\u{302}","\u{d3}\u{302}","\u{4f}\u{301}\u{302}"],["\u{1e54}\u{302}","\u{50}\u{301}\u{302}","\u{1e54}\u{302}","\u{50}\u{301}\u{302}"],["\u{51}\u{301}\u{302}","\u{51}\u{301}\u{302}","\u{51}\u{301}\u{302}","\u{51}\u{301}\u{302}"],["\u{154}\u{302}","\u{52}\u{301}\u{302}","\u{154}\u{302}","\u{52}\u{301}\u{302}"],["\u{15a}\u{302}","\u{53}\u{301}\u{302}","\u{15a}\u{302}","\u{53}\u{301}\u{302}"],["\u{54}\u{301}\u{302}","\u{54}\u{301}\u{302}","\u{54}\u{301}\u{302}","\u{54}\u{301}\u{302}"],["\u{da}\u{302}","\u{55}\u{301}\u{302}","\u{da}\u{302}","\u{55}\u{301}\u{302}"],["\u{56}\u{301}\u{302}","\u{56}\u{301}\u{302}","\u{56}\u{301}\u{302}","\u{56}\u{301}\u{302}"],["\u{1e82}\u{302}","\u{57}\u{301}\u{302}","\u{1e82}\u{302}","\u{57}\u{301}\u{302}"],["\u{58}\u{301}\u{302}","\u{58}\u{301}\u{302}","\u{58}\u{301}\u{302}","\u{58}\u{301}\u{302}"],["\u{dd}\u{302}","\u{59}\u{301}\u{302}","\u{dd}\u{302}","\u{59}\u{301}\u{302}"],["\u{179}\u{302}","\u{5a}\u{301}\u{302}","\u{179}\u{302}","\u{5a}\u{301}\u{302}"],["\u{5b}\u{301}\u{302}","\u{5b}\u{301}\u{302}","\u{5b}\u{301}\u{302}","\u{5b}\u{301}\u{302}"],["\u{5c}\u{301}\u{302}","\u{5c}\u{301}\u{302}","\u{5c}\u{301}\u{302}","\u{5c}\u{301}\u{302}"],["\u{5d}\u{301}\u{302}","\u{5d}\u{301}\u{302}","\u{5d}\u{301}\u{302}","\u{5d}\u{301}\u{302}"],["\u{5e}\u{301}\u{302}","\u{5e}\u{301}\u{302}","\u{5e}\u{301}\u{302}","\u{5e}\u{301}\u{302}"],["\u{5f}\u{301}\u{302}","\u{5f}\u{301}\u{302}","\u{5f}\u{301}\u{302}","\u{5f}\u{301}\u{302}"],["\u{60}\u{301}\u{302}","\u{60}\u{301}\u{302}","\u{60}\u{301}\u{302}","\u{60}\u{301}\u{302}"],["\u{e1}\u{302}","\u{61}\u{301}\u{302}","\u{e1}\u{302}","\u{61}\u{301}\u{302}"],["\u{62}\u{301}\u{302}","\u{62}\u{301}\u{302}","\u{62}\u{301}\u{302}","\u{62}\u{301}\u{302}"],["\u{107}\u{302}","\u{63}\u{301}\u{302}","\u{107}\u{302}","\u{63}\u{301}\u{302}"],["\u{64}\u{301}\u{302}","\u{64}\u{301}\u{302}","\u{64}\u{301}\u{302}","\u{64}\u{301}\u{302}"],["\u{e9}\u{302}","\u{65}\u{301}\u{302}","\u{e9}\u{302}","\u{65}\u{301}\u{302}"],["\u{66}\u{301}\u{302}","\u{66}\u{301}\u{302}","\u{66}\u{301}\u{302}","\u{66}\u{301}\u{302}"],["\u{1f5}\u{302}","\u{67}\u{301}\u{302}","\u{1f5}\u{302}","\u{67}\u{301}\u{302}"],["\u{68}\u{301}\u{302}","\u{68}\u{301}\u{302}","\u{68}\u{301}\u{302}","\u{68}\u{301}\u{302}"],["\u{ed}\u{302}","\u{69}\u{301}\u{302}","\u{ed}\u{302}","\u{69}\u{301}\u{302}"],["\u{6a}\u{301}\u{302}","\u{6a}\u{301}\u{302}","\u{6a}\u{301}\u{302}","\u{6a}\u{301}\u{302}"],["\u{1e31}\u{302}","\u{6b}\u{301}\u{302}","\u{1e31}\u{302}","\u{6b}\u{301}\u{302}"],["\u{13a}\u{302}","\u{6c}\u{301}\u{302}","\u{13a}\u{302}","\u{6c}\u{301}\u{302}"],["\u{1e3f}\u{302}","\u{6d}\u{301}\u{302}","\u{1e3f}\u{302}","\u{6d}\u{301}\u{302}"],["\u{144}\u{302}","\u{6e}\u{301}\u{302}","\u{144}\u{302}","\u{6e}\u{301}\u{302}"],["\u{f3}\u{302}","\u{6f}\u{301}\u{302}","\u{f3}\u{302}","\u{6f}\u{301}\u{302}"],["\u{1e55}\u{302}","\u{70}\u{301}\u{302}","\u{1e55}\u{302}","\u{70}\u{301}\u{302}"],["\u{71}\u{301}\u{302}","\u{71}\u{301}\u{302}","\u{71}\u{301}\u{302}","\u{71}\u{301}\u{302}"],["\u{155}\u{302}","\u{72}\u{301}\u{302}","\u{155}\u{302}","\u{72}\u{301}\u{302}"],["\u{15b}\u{302}","\u{73}\u{301}\u{302}","\u{15b}\u{302}","\u{73}\u{301}\u{302}"],["\u{74}\u{301}\u{302}","\u{74}\u{301}\u{302}","\u{74}\u{301}\u{302}","\u{74}\u{301}\u{302}"],["\u{fa}\u{302}","\u{75}\u{301}\u{302}","\u{fa}\u{302}","\u{75}\u{301}\u{302}"],["\u{76}\u{301}\u{302}","\u{76}\u{301}\u{302}","\u{76}\u{301}\u{302}","\u{76}\u{301}\u{302}"],["\u{1e83}\u{302}","\u{77}\u{301}\u{302}","\u{1e83}\u{302}","\u{77}\u{301}\u{302}"],["\u{78}\u{301}\u{302}","\u{78}\u{301}\u{302}","\u{78}\u{301}\u{302}","\u{78}\u{301}\u{302}"],["\u{fd}\u{302}","\u{79}\u{301}\u{302}","\u{fd}\u{302}","\u{79}\u{301}\u{302}"],["\u{17a}\u{302}","\u{7a}\u{301}\u{302}","\u{17a}\u{302}","\u{7a}\u{301}\u{302}"]],
[["\u{c1}\u{303}","\u{41}\u{301}\u{303}","\u{c1}\u{303}","\u{41}\u{301}\u{303}"],["\u{42}\u{301}\u{303}","\u{42}\u{301}\u{303}","\u{42}\u{301}\u{303}","\u{42}\u{301}\u{303}"],["\u{106}\u{303}","\u{43}\u{301}\u{303}","\u{106}\u{303}","\u{43}\u{301}\u{303}"],["\u{44}\u{301}\u{303}","\u{44}\u{301}\u{303}","\u{44}\u{301}\u{303}","\u{44}\u{301}\u{303}"],["\u{c9}\u{303}","\u{45}\u{301}\u{303}","\u{c9}\u{303}","\u{45}\u{301}\u{303}"],["\u{46}\u{301}\u{303}","\u{46}\u{301}\u{303}","\u{46}\u{301}\u{303}","\u{46}\u{301}\u{303}"],["\u{1f4}\u{303}","\u{47}\u{301}\u{303}","\u{1f4}\u{303}","\u{47}\u{301}\u{303}"],["\u{48}\u{301}\u{303}","\u{48}\u{301}\u{303}","\u{48}\u{301}\u{303}","\u{48}\u{301}\u{303}"],["\u{cd}\u{303}","\u{49}\u{301}\u{303}","\u{cd}\u{303}","\u{49}\u{301}\u{303}"],["\u{4a}\u{301}\u{303}","\u{4a}\u{301}\u{303}","\u{4a}\u{301}\u{303}","\u{4a}\u{301}\u{303}"],["\u{1e30}\u{303}","\u{4b}\u{301}\u{303}","\u{1e30}\u{303}","\u{4b}\u{301}\u{303}"],["\u{139}\u{303}","\u{4c}\u{301}\u{303}","\u{139}\u{303}","\u{4c}\u{301}\u{303}"],["\u{1e3e}\u{303}","\u{4d}\u{301}\u{303}","\u{1e3e}\u{303}","\u{4d}\u{301}\u{303}"],["\u{143}\u{303}","\u{4e}\u{301}\u{303}","\u{143}\u{303}","\u{4e}\u{301}\u{303}"],["\u{d3}\u{303}","\u{4f}\u{301}\u{303}","\u{d3}\u{303}","\u{4f}\u{301}\u{303}"],["\u{1e54}\u{303}","\u{50}\u{301}\u{303}","\u{1e54}\u{303}","\u{50}\u{301}\u{303}"],["\u{51}\u{301}\u{303}","\u{51}\u{301}\u{303}","\u{51}\u{301}\u{303}","\u{51}\u{301}\u{303}"],["\u{154}\u{303}","\u{52}\u{301}\u{303}","\u{154}\u{303}","\u{52}\u{301}\u{303}"],["\u{15a}\u{303}","\u{53}\u{301}\u{303}","\u{15a}\u{303}","\u{53}\u{301}\u{303}"],["\u{54}\u{301}\u{303}","\u{54}\u{301}\u{303}","\u{54}\u{301}\u{303}","\u{54}\u{301}\u{303}"],["\u{da}\u{303}","\u{55}\u{301}\u{303}","\u{da}\u{303}","\u{55}\u{301}\u{303}"],["\u{56}\u{301}\u{303}","\u{56}\u{301}\u{303}","\u{56}\u{301}\u{303}","\u{56}\u{301}\u{303}"],["\u{1e82}\u{303}","\u{57}\u{301}\u{303}","\u{1e82}\u{303}","\u{57}\u{301}\u{303}"],["\u{58}\u{301}\u{303}","\u{58}\u{301}\u{303}","\u{58}\u{301}\u{303}","\u{58}\u{301}\u{303}"],["\u{dd}\u{303}","\u{59}\u{301}\u{303}","\u{dd}\u{303}","\u{59}\u{301}\u{303}"],["\u{179}\u{303}","\u{5a}\u{301}\u{303}","\u{179}\u{303}","\u{5a}\u{301}\u{303}"],["\u{5b}\u{301}\u{303}","\u{5b}\u{301}\u{303}","\u{5b}\u{301}\u{303}","\u{5b}\u{301}\u{303}"],["\u{5c}\u{301}\u{303}","\u{5c}\u{301}\u{303}","\u{5c}\u{301}\u{303}","\u{5c}\u{301}\u{303}"],["\u{5d}\u{301}\u{303}","\u{5d}\u{301}\u{303}","\u{5d}\u{301}\u{303}","\u{5d}\u{301}\u{303}"],["\u{5e}\u{301}\u{303}","\u{5e}\u{301}\u{303}","\u{5e}\u{301}\u{303}","\u{5e}\u{301}\u{303}"],["\u{5f}\u{301}\u{303}","\u{5f}\u{301}\u{303}","\u{5f}\u{301}\u{303}","\u{5f}\u{301}\u{303}"],["\u{60}\u{301}\u{303}","\u{60}\u{301}\u{303}","\u{60}\u{301}\u{303}","\u{60}\u{301}\u{303}"],["\u{e1}\u{303}","\u{61}\u{301}\u{303}","\u{e1}\u{303}","\u{61}\u{301}\u{303}"],["\u{62}\u{301}\u{303}","\u{62}\u{301}\u{303}","\u{62}\u{301}\u{303}","\u{62}\u{301}\u{303}"],["\u{107}\u{303}","\u{63}\u{301}\u{303}","\u{107}\u{303}","\u{63}\u{301}\u{303}"],["\u{64}\u{301}\u{303}","\u{64}\u{301}\u{303}","\u{64}\u{301}\u{303}","\u{64}\u{301}\u{303}"],["\u{e9}\u{303}","\u{65}\u{301}\u{303}","\u{e9}\u{303}","\u{65}\u{301}\u{303}"],["\u{66}\u{301}\u{303}","\u{66}\u{301}\u{303}","\u{66}\u{301}\u{303}","\u{66}\u{301}\u{303}"],["\u{1f5}\u{303}","\u{67}\u{301}\u{303}","\u{1f5}\u{303}","\u{67}\u{301}\u{303}"],["\u{68}\u{301}\u{303}","\u{68}\u{301}\u{303}","\u{68}\u{301}\u{303}","\u{68}\u{301}\u{303}"],["\u{ed}\u{303}","\u{69}\u{301}\u{303}","\u{ed}\u{303}","\u{69}\u{301}\u{303}"],["\u{6a}\u{301}\u{303}","\u{6a}\u{301}\u{303}","\u{6a}\u{301}\u{303}","\u{6a}\u{301}\u{303}"],["\u{1e31}\u{303}","\u{6b}\u{301}\u{303}","\u{1e31}\u{303}","\u{6b}\u{301}\u{303}"],["\u{13a}\u{303}","\u{6c}\u{301}\u{303}","\u{13a}\u{303}","\u{6c}\u{301}\u{303}"],["\u{1e3f}\u{303}","\u{6d}\u{301}\u{303}","\u{1e3f}\u{303}","\u{6d}\u{301}\u{303}"],["\u{144}\u{303}","\u{6e}\u{301}\u{303}","\u{144}\u{303}","\u{6e}\u{301}\u{303}"],["\u{f3}\u{303}","\u{6f}\u{301}\u{303}","\u{f3}\u{303}","\u{6f}\u{301}\u{303}"],["\u{1e55}\u{303}","\u{70}\u{301}\u{303}","\u{1e55}\u{303}","\u{70}\u{301}\u{303}"],["\u{71}\u{301}\u{303}","\u{71}\u{301}\u{303}","\u{71}\u{301}\u{303}","\u{71}\u{301}\u{303}"],["\u{155}\u{303}","\u{72}\u{301}\u{303}","\u{155}\u{303}","\u{72}\u{301}\u{303}"],["\u{15b}\u{303}","\u{73}\u{301}\u{303}","\u{15b}\u{303}","\u{73}\u{301}\u{303}"],["\u{74}\u{301}\u{303}","\u{74}\u{301}\u{303}","\u{74}\u{301}\u{303}","\u{74}\u{301}\u{303}"],["\u{fa}\u{303}","\u{75}\u{301}\u{303}","\u{fa}\u{303}","\u{75}\u{301}\u{303}"],["\u{76}\u{301}\u{303}","\u{76}\u{301}\u{303}","\u{76}\u{301}\u{303}","\u{76}\u{301}\u{303}"],["\u{1e83}\u{303}","\u{77}\u{301}\u{303}","\u{1e83}\u{303}","\u{77}\u{301}\u{303}"],["\u{78}\u{301}\u{303}","\u{78}\u{301}\u{303}","\u{78}\u{301}\u{303}","\u{78}\u{301}\u{303}"],["\u{fd}\u{303}","\u{79}\u{301}\u{303}","\u{fd}\u{303}","\u{79}\u{301}\u{303}"],["\u{17a}\u{303}","\u{7a}\u{301}\u{303}","\u{17a}\u{303}","\u{7a}\u{301}\u{303}"]],
[["\u{c1}\u{308}","\u{41}\u{301}\u{308}","\u{c1}\u{308}","\u{41}\u{301}\u{308}"],["\u{42}\u{301}\u{308}","\u{42}\u{301}\u{308}","\u{42}\u{301}\u{308}","\u{42}\u{301}\u{308}"],["\u{106}\u{308}","\u{43}\u{301}\u{308}","\u{106}\u{308}","\u{43}\u{301}\u{308}"],["\u{44}\u{301}\u{308}","\u{44}\u{301}\u{308}","\u{44}\u{301}\u{308}","\u{44}\u{301}\u{308}"],["\u{c9}\u{308}","\u{45}\u{301}\u{308}","\u{c9}\u{308}","\u{45}\u{301}\u{308}"],["\u{46}\u{301}\u{308}","\u{46}\u{301}\u{308}","\u{46}\u{301}\u{308}","\u{46}\u{301}\u{308}"],["\u{1f4}\u{308}","\u{47}\u{301}\u{308}","\u{1f4}\u{308}","\u{47}\u{301}\u{308}"],["\u{48}\u{301}\u{308}","\u{48}\u{301}\u{308}","\u{48}\u{301}\u{308}","\u{48}\u{301}\u{308}"],["\u{cd}\u{308}","\u{49}\u{301}\u{308}","\u{cd}\u{308}","\u{49}\u{301}\u{308}"],["\u{4a}\u{301}\u{308}","\u{4a}\u{301}\u{308}","\u{4a}\u{301}\u{308}","\u{4a}\u{301}\u{308}"],["\u{1e30}\u{308}","\u{4b}\u{301}\u{308}","\u{1e30}\u{308}","\u{4b}\u{301}\u{308}"],["\u{139}\u{308}","\u{4c}\u{301}\u{308}","\u{139}\u{308}","\u{4c}\u{301}\u{308}"],["\u{1e3e}\u{308}","\u{4d}\u{301}\u{308}","\u{1e3e}\u{308}","\u{4d}\u{301}\u{308}"],["\u{143}\u{308}","\u{4e}\u{301}\u{308}","\u{143}\u{308}","\u{4e}\u{301}\u{308}"],["\u{d3}\u{308}","\u{4f}\u{301}\u{308}","\u{d3}\u{308}","\u{4f}\u{301}\u{308}"],["\u{1e54}\u{308}","\u{50}\u{301}\u{308}","\u{1e54}\u{308}","\u{50}\u{301}\u{308}"],["\u{51}\u{301}\u{308}","\u{51}\u{301}\u{308}","\u{51}\u{301}\u{308}","\u{51}\u{301}\u{308}"],["\u{154}\u{308}","\u{52}\u{301}\u{308}","\u{154}\u{308}","\u{52}\u{301}\u{308}"],["\u{15a}\u{308}","\u{53}\u{301}\u{308}","\u{15a}\u{308}","\u{53}\u{301}\u{308}"],["\u{54}\u{301}\u{308}","\u{54}\u{301}\u{308}","\u{54}\u{301}\u{308}","\u{54}\u{301}\u{308}"],["\u{da}\u{308}","\u{55}\u{301}\u{308}","\u{da}\u{308}","\u{55}\u{301}\u{308}"],["\u{56}\u{301}\u{308}","\u{56}\u{301}\u{308}","\u{56}\u{301}\u{308}","\u{56}\u{301}\u{308}"],["\u{1e82}\u{308}","\u{57}\u{301}\u{308}","\u{1e82}\u{308}","\u{57}\u{301}\u{308}"],["\u{58}\u{301}\u{308}","\u{58}\u{301}\u{308}","\u{58}\u{301}\u{308}","\u{58}\u{301}\u{308}"],["\u{dd}\u{308}","\u{59}\u{301}\u{308}","\u{dd}\u{308}","\u{59}\u{301}\u{308}"],["\u{179}\u{308}","\u{5a}\u{301}\u{308}","\u{179}\u{308}","\u{5a}\u{301}\u{308}"],["\u{5b}\u{301}\u{308}","\u{5b}\u{301}\u{308}","\u{5b}\u{301}\u{308}","\u{5b}\u{301}\u{308}"],["\u{5c}\u{301}\u{308}","\u{5c}\u{301}\u{308}","\u{5c}\u{301}\u{308}","\u{5c}\u{301}\u{308}"],["\u{5d}\u{301}\u{308}","\u{5d}\u{301}\u{308}","\u{5d}\u{301}\u{308}","\u{5d}\u{301}\u{308}"],["\u{5e}\u{301}\u{308}","\u{5e}\u{301}\u{308}","\u{5e}\u{301}\u{308}","\u{5e}\u{301}\u{308}"],["\u{5f}\u{301}\u{308}","\u{5f}\u{301}\u{308}","\u{5f}\u{301}\u{308}","\u{5f}\u{301}\u{308}"],["\u{60}\u{301}\u{308}","\u{60}\u{301}\u{308}","\u{60}\u{301}\u{308}","\u{60}\u{301}\u{308}"],["\u{e1}\u{308}","\u{61}\u{301}\u{308}","\u{e1}\u{308}","\u{61}\u{301}\u{308}"],["\u{62}\u{301}\u{308}","\u{62}\u{301}\u{308}","\u{62}\u{301}\u{308}","\u{62}\u{301}\u{308}"],["\u{107}\u{308}","\u{63}\u{301}\u{308}","\u{107}\u{308}","\u{63}\u{301}\u{308}"],["\u{64}\u{301}\u{308}","\u{64}\u{301}\u{308}","\u{64}\u{301}\u{308}","\u{64}\u{301}\u{308}"],["\u{e9}\u{308}","\u{65}\u{301}\u{308}","\u{e9}\u{308}","\u{65}\u{301}\u{308}"],["\u{66}\u{301}\u{308}","\u{66}\u{301}\u{308}","\u{66}\u{301}\u{308}","\u{66}\u{301}\u{308}"],["\u{1f5}\u{308}","\u{67}\u{301}\u{308}","\u{1f5}\u{308}","\u{67}\u{301}\u{308}"],["\u{68}\u{301}\u{308}","\u{68}\u{301}\u{308}","\u{68}\u{301}\u{308}","\u{68}\u{301}\u{308}"],["\u{ed}\u{308}","\u{69}\u{301}\u{308}","\u{ed}\u{308}","\u{69}\u{301}\u{308}"],["\u{6a}\u{301}\u{308}","\u{6a}\u{301}\u{308}","\u{6a}\u{301}\u{308}","\u{6a}\u{301}\u{308}"],["\u{1e31}\u{308}","\u{6b}\u{301}\u{308}","\u{1e31}\u{308}","\u{6b}\u{301}\u{308}"],["\u{13a}\u{308}","\u{6c}\u{301}\u{308}","\u{13a}\u{308}","\u{6c}\u{301}\u{308}"],["\u{1e3f}\u{308}","\u{6d}\u{301}\u{308}","\u{1e3f}\u{308}","\u{6d}\u{301}\u{308}"],["\u{144}\u{308}","\u{6e}\u{301}\u{308}","\u{144}\u{308}","\u{6e}\u{301}\u{308}"],["\u{f3}\u{308}","\u{6f}\u{301}\u{308}","\u{f3}\u{308}","\u{6f}\u{301}\u{308}"],["\u{1e55}\u{308}","\u{70}\u{301}\u{308}","\u{1e55}\u{308}","\u{70}\u{301}\u{308}"],["\u{71}\u{301}\u{308}","\u{71}\u{301}\u{308}","\u{71}\u{301}\u{308}","\u{71}\u{301}\u{308}"],["\u{155}\u{308}","\u{72}\u{301}\u{308}","\u{155}\u{308}","\u{72}\u{301}\u{308}"],["\u{15b}\u{308}","\u{73}\u{301}\u{308}","\u{15b}\u{308}","\u{73}\u{301}\u{308}"],["\u{74}\u{301}\u{308}","\u{74}\u{301}\u{308}","\u{74}\u{301}\u{308}","\u{74}\u{301}\u{308}"],["\u{fa}\u{308}","\u{75}\u{301}\u{308}","\u{fa}\u{308}","\u{75}\u{301}\u{308}"],["\u{76}\u{301}\u{308}","\u{76}\u{301}\u{308}","\u{76}\u{301}\u{308}","\u{76}\u{301}\u{308}"],["\u{1e83}\u{308}","\u{77}\u{301}\u{308}","\u{1e83}\u{308}","\u{77}\u{301}\u{308}"],["\u{78}\u{301}\u{308}","\u{78}\u{301}\u{308}","\u{78}\u{301}\u{308}","\u{78}\u{301}\u{308}"],["\u{fd}\u{308}","\u{79}\u{301}\u{308}","\u{fd}\u{308}","\u{79}\u{301}\u{308}"],["\u{17a}\u{308}","\u{7a}\u{301}\u{308}","\u{17a}\u{308}","\u{7a}\u{301}\u{308}"]],
[["\u{1ea0}\u{301}","\u{41}\u{323}\u{301}","\u{1ea0}\u{301}","\u{41}\u{323}\u{301}"],["\u{1e04}\u{301}","\u{42}\u{323}\u{301}","\u{1e04}\u{301}","\u{42}\u{323}\u{301}"],["\u{106}\u{323}","\u{43}\u{323}\u{301}","\u{106}\u{323}","\u{43}\u{323}\u{301}"],["\u{1e0c}\u{301}","\u{44}\u{323}\u{301}","\u{1e0c}\u{301}","\u{44}\u{323}\u{301}"],["\u{1eb8}\u{301}","\u{45}\u{323}\u{301}","\u{1eb8}\u{301}","\u{45}\u{323}\u{301}"],["\u{46}\u{323}\u{301}","\u{46}\u{323}\u{301}","\u{46}\u{323}\u{301}","\u{46}\u{323}\u{301}"],["\u{1f4}\u{323}","\u{47}\u{323}\u{301}","\u{1f4}\u{323}","\u{47}\u{323}\u{301}"],["\u{1e24}\u{301}","\u{48}\u{323}\u{301}","\u{1e24}\u{301}","\u{48}\u{323}\u{301}"],["\u{1eca}\u{301}","\u{49}\u{323}\u{301}","\u{1eca}\u{301}","\u{49}\u{323}\u{301}"],["\u{4a}\u{323}\u{301}","\u{4a}\u{323}\u{301}","\u{4a}\u{323}\u{301}","\u{4a}\u{323}\u{301}"],["\u{1e32}\u{301}","\u{4b}\u{323}\u{301}","\u{1e32}\u{301}","\u{4b}\u{323}\u{301}"],["\u{1e36}\u{301}","\u{4c}\u{323}\u{301}","\u{1e36}\u{301}","\u{4c}\u{323}\u{301}"],["\u{1e42}\u{301}","\u{4d}\u{323}\u{301}","\u{1e42}\u{301}","\u{4d}\u{323}\u{301}"],["\u{1e46}\u{301}","\u{4e}\u{323}\u{301}","\u{1e46}\u{301}","\u{4e}\u{323}\u{301}"],["\u{1ecc}\u{301}","\u{4f}\u{323}\u{301}","\u{1ecc}\u{301}","\u{4f}\u{323}\u{301}"],["\u{1e54}\u{323}","\u{50}\u{323}\u{301}","\u{1e54}\u{323}","\u{50}\u{323}\u{301}"],["\u{51}\u{323}\u{301}","\u{51}\u{323}\u{301}","\u{51}\u{323}\u{301}","\u{51}\u{323}\u{301}"],["\u{1e5a}\u{301}","\u{52}\u{323}\u{301}","\u{1e5a}\u{301}","\u{52}\u{323}\u{301}"],["\u{1e62}\u{301}","\u{53}\u{323}\u{301}","\u{1e62}\u{301}","\u{53}\u{323}\u{301}"],["\u{1e6c}\u{301}","\u{54}\u{323}\u{301}","\u{1e6c}\u{301}","\u{54}\u{323}\u{301}"],["\u{1ee4}\u{301}","\u{55}\u{323}\u{301}","\u{1ee4}\u{301}","\u{55}\u{323}\u{301}"],["\u{1e7e}\u{301}","\u{56}\u{323}\u{301}","\u{1e7e}\u{301}","\u{56}\u{323}\u{301}"],["\u{1e88}\u{301}","\u{57}\u{323}\u{301}","\u{1e88}\u{301}","\u{57}\u{323}\u{301}"],["\u{58}\u{323}\u{301}","\u{58}\u{323}\u{301}","\u{58}\u{323}\u{301}","\u{58}\u{323}\u{301}"],["\u{1ef4}\u{301}","\u{59}\u{323}\u{301}","\u{1ef4}\u{301}","\u{59}\u{323}\u{301}"],["\u{1e92}\u{301}","\u{5a}\u{323}\u{301}","\u{1e92}\u{301}","\u{5a}\u{323}\u{301}"],["\u{5b}\u{323}\u{301}","\u{5b}\u{323}\u{301}","\u{5b}\u{323}\u{301}","\u{5b}\u{323}\u{301}"],["\u{5c}\u{323}\u{301}","\u{5c}\u{323}\u{301}","\u{5c}\u{323}\u{301}","\u{5c}\u{323}\u{301}"],["\u{5d}\u{323}\u{301}","\u{5d}\u{323}\u{301}","\u{5d}\u{323}\u{301}","\u{5d}\u{323}\u{301}"],["\u{5e}\u{323}\u{301}","\u{5e}\u{323}\u{301}","\u{5e}\u{323}\u{301}","\u{5e}\u{323}\u{301}"],["\u{5f}\u{323}\u{301}","\u{5f}\u{323}\u{301}","\u{5f}\u{323}\u{301}","\u{5f}\u{323}\u{301}"],["\u{60}\u{323}\u{301}","\u{60}\u{323}\u{301}","\u{60}\u{323}\u{301}","\u{60}\u{323}\u{301}"],["\u{1ea1}\u{301}","\u{61}\u{323}\u{301}","\u{1ea1}\u{301}","\u{61}\u{323}\u{301}"],["\u{1e05}\u{301}","\u{62}\u{323}\u{301}","\u{1e05}\u{301}","\u{62}\u{323}\u{301}"],["\u{107}\u{323}","\u{63}\u{323}\u{301}","\u{107}\u{323}","\u{63}\u{323}\u{301}"],["\u{1e0d}\u{301}","\u{64}\u{323}\u{301}","\u{1e0d}\u{301}","\u{64}\u{323}\u{301}"],["\u{1eb9}\u{301}","\u{65}\u{323}\u{301}","\u{1eb9}\u{301}","\u{65}\u{323}\u{301}"],["\u{66}\u{323}\u{301}","\u{66}\u{323}\u{301}","\u{66}\u{323}\u{301}","\u{66}\u{323}\u{301}"],["\u{1f5}\u{323}","\u{67}\u{323}\u{301}","\u{1f5}\u{323}","\u{67}\u{323}\u{301}"],["\u{1e25}\u{301}","\u{68}\u{323}\u{301}","\u{1e25}\u{301}","\u{68}\u{323}\u{301}"],["\u{1ecb}\u{301}","\u{69}\u{323}\u{301}","\u{1ecb}\u{301}","\u{69}\u{323}\u{301}"],["\u{6a}\u{323}\u{301}","\u{6a}\u{323}\u{301}","\u{6a}\u{323}\u{301}","\u{6a}\u{323}\u{301}"],["\u{1e33}\u{301}","\u{6b}\u{323}\u{301}","\u{1e33}\u{301}","\u{6b}\u{323}\u{301}"],["\u{1e37}\u{301}","\u{6c}\u{323}\u{301}","\u{1e37}\u{301}","\u{6c}\u{323}\u{301}"],["\u{1e43}\u{301}","\u{6d}\u{323}\u{301}","\u{1e43}\u{301}","\u{6d}\u{323}\u{301}"],["\u{1e47}\u{301}","\u{6e}\u{323}\u{301}","\u{1e47}\u{301}","\u{6e}\u{323}\u{301}"],["\u{1ecd}\u{301}","\u{6f}\u{323}\u{301}","\u{1ecd}\u{301}","\u{6f}\u{323}\u{301}"],["\u{1e55}\u{323}","\u{70}\u{323}\u{301}","\u{1e55}\u{323}","\u{70}\u{323}\u{301}"],["\u{71}\u{323}\u{301}","\u{71}\u{323}\u{301}","\u{71}\u{323}\u{301}","\u{71}\u{323}\u{301}"],["\u{1e5b}\u{301}","\u{72}\u{323}\u{301}","\u{1e5b}\u{301}","\u{72}\u{323}\u{301}"],["\u{1e63}\u{301}","\u{73}\u{323}\u{301}","\u{1e63}\u{301}","\u{73}\u{323}\u{301}"],["\u{1e6d}\u{301}","\u{74}\u{323}\u{301}","\u{1e6d}\u{301}","\u{74}\u{323}\u{301}"],["\u{1ee5}\u{301}","\u{75}\u{323}\u{301}","\u{1ee5}\u{301}","\u{75}\u{323}\u{301}"],["\u{1e7f}\u{301}","\u{76}\u{323}\u{301}","\u{1e7f}\u{301}","\u{76}\u{323}\u{301}"],["\u{1e89}\u{301}","\u{77}\u{323}\u{301}","\u{1e89}\u{301}","\u{77}\u{323}\u{301}"],["\u{78}\u{323}\u{301}","\u{78}\u{323}\u{301}","\u{78}\u{323}\u{301}","\u{78}\u{323}\u{301}"],["\u{1ef5}\u{301}","\u{79}\u{323}\u{301}","\u{1ef5}\u{301}","\u{79}\u{323}\u{301}"],["\u{1e93}\u{301}","\u{7a}\u{323}\u{301}","\u{1e93}\u{301}","\u{7a}\u{323}\u{301}"]],
[["\u{c1}\u{327}","\u{41}\u{327}\u{301}","\u{c1}\u{327}","\u{41}\u{327}\u{301}"],["\u{42}\u{327}\u{301}","\u{42}\u{327}\u{301}","\u{42}\u{327}\u{301}","\u{42}\u{327}\u{301}"],["\u{1e08}","\u{43}\u{327}\u{301}","\u{1e08}","\u{43}\u{327}\u{301}"],["\u{1e10}\u{301}","\u{44}\u{327}\u{301}","\u{1e10}\u{301}","\u{44}\u{327}\u{301}"],["\u{228}\u{301}","\u{45}\u{327}\u{301}","\u{228}\u{301}","\u{45}\u{327}\u{301}"],["\u{46}\u{327}\u{301}","\u{46}\u{327}\u{301}","\u{46}\u{327}\u{301}","\u{46}\u{327}\u{301}"],["\u{122}\u{301}","\u{47}\u{327}\u{301}","\u{122}\u{301}","\u{47}\u{327}\u{301}"],["\u{1e28}\u{301}","\u{48}\u{327}\u{301}","\u{1e28}\u{301}","\u{48}\u{327}\u{301}"],["\u{cd}\u{327}","\u{49}\u{327}\u{301}","\u{cd}\u{327}","\u{49}\u{327}\u{301}"],["\u{4a}\u{327}\u{301}","\u{4a}\u{327}\u{301}","\u{4a}\u{327}\u{301}","\u{4a}\u{327}\u{301}"],["\u{136}\u{301}","\u{4b}\u{327}\u{301}","\u{136}\u{301}","\u{4b}\u{327}\u{301}"],["\u{13b}\u{301}","\u{4c}\u{327}\u{301}","\u{13b}\u{301}","\u{4c}\u{327}\u{301}"],["\u{1e3e}\u{327}","\u{4d}\u{327}\u{301}","\u{1e3e}\u{327}","\u{4d}\u{327}\u{301}"],["\u{145}\u{301}","\u{4e}\u{327}\u{301}","\u{145}\u{301}","\u{4e}\u{327}\u{301}"],["\u{d3}\u{327}","\u{4f}\u{327}\u{301}","\u{d3}\u{327}","\u{4f}\u{327}\u{301}"],["\u{1e54}\u{327}","\u{50}\u{327}\u{301}","\u{1e54}\u{327}","\u{50}\u{327}\u{301}"],["\u{51}\u{327}\u{301}","\u{51}\u{327}\u{301}","\u{51}\u{327}\u{301}","\u{51}\u{327}\u{301}"],["\u{156}\u{301}","\u{52}\u{327}\u{301}","\u{156}\u{301}","\u{52}\u{327}\u{301}"],["\u{15e}\u{301}","\u{53}\u{327}\u{301}","\u{15e}\u{301}","\u{53}\u{327}\u{301}"],["\u{162}\u{301}","\u{54}\u{327}\u{301}","\u{162}\u{301}","\u{54}\u{327}\u{301}"],["\u{da}\u{327}","\u{55}\u{327}\u{301}","\u{da}\u{327}","\u{55}\u{327}\u{301}"],["\u{56}\u{327}\u{301}","\u{56}\u{327}\u{301}","\u{56}\u{327}\u{301}","\u{56}\u{327}\u{301}"],["\u{1e82}\u{327}","\u{57}\u{327}\u{301}","\u{1e82}\u{327}","\u{57}\u{327}\u{301}"],["\u{58}\u{327}\u{301}","\u{58}\u{327}\u{301}","\u{58}\u{327}\u{301}","\u{58}\u{327}\u{301}"],["\u{dd}\u{327}","\u{59}\u{327}\u{301}","\u{dd}\u{327}","\u{59}\u{327}\u{301}"],["\u{179}\u{327}","\u{5a}\u{327}\u{301}","\u{179}\u{327}","\u{5a}\u{327}\u{301}"],["\u{5b}\u{327}\u{301}","\u{5b}\u{327}\u{301}","\u{5b}\u{327}\u{301}","\u{5b}\u{327}\u{301}"],["\u{5c}\u{327}\u{301}","\u{5c}\u{327}\u{301}","\u{5c}\u{327}\u{301}","\u{5c}\u{327}\u{301}"],["\u{5d}\u{327}\u{301}","\u{5d}\u{327}\u{301}","\u{5d}\u{327}\u{301}","\u{5d}\u{327}\u{301}"],["\u{5e}\u{327}\u{301}","\u{5e}\u{327}\u{301}","\u{5e}\u{327}\u{301}","\u{5e}\u{327}\u{301}"],["\u{5f}\u{327}\u{301}","\u{5f}\u{327}\u{301}","\u{5f}\u{327}\u{301}","\u{5f}\u{327}\u{301}"],["\u{60}\u{327}\u{301}","\u{60}\u{327}\u{301}","\u{60}\u{327}\u{301}","\u{60}\u{327}\u{301}"],["\u{e1}\u{327}","\u{61}\u{327}\u{301}","\u{e1}\u{327}","\u{61}\u{327}\u{301}"],["\u{62}\u{327}\u{301}","\u{62}\u{327}\u{301}","\u{62}\u{327}\u{301}","\u{62}\u{327}\u{301}"],["\u{1e09}","\u{63}\u{327}\u{301}","\u{1e09}","\u{63}\u{327}\u{301}"],["\u{1e11}\u{301}","\u{64}\u{327}\u{301}","\u{1e11}\u{301}","\u{64}\u{327}\u{301}"],["\u{229}\u{301}","\u{65}\u{327}\u{301}","\u{229}\u{301}","\u{65}\u{327}\u{301}"],["\u{66}\u{327}\u{301}","\u{66}\u{327}\u{301}","\u{66}\u{327}\u{301}","\u{66}\u{327}\u{301}"],["\u{123}\u{301}","\u{67}\u{327}\u{301}","\u{123}\u{301}","\u{67}\u{327}\u{301}"],["\u{1e29}\u{301}","\u{68}\u{327}\u{301}","\u{1e29}\u{301}","\u{68}\u{327}\u{301}"],["\u{ed}\u{327}","\u{69}\u{327}\u{301}","\u{ed}\u{327}","\u{69}\u{327}\u{301}"],["\u{6a}\u{327}\u{301}","\u{6a}\u{327}\u{301}","\u{6a}\u{327}\u{301}","\u{6a}\u{327}\u{301}"],["\u{137}\u{301}","\u{6b}\u{327}\u{301}","\u{137}\u{301}","\u{6b}\u{327}\u{301}"],["\u{13c}\u{301}","\u{6c}\u{327}\u{301}","\u{13c}\u{301}","\u{6c}\u{327}\u{301}"],["\u{1e3f}\u{327}","\u{6d}\u{327}\u{301}","\u{1e3f}\u{327}","\u{6d}\u{327}\u{301}"],["\u{146}\u{301}","\u{6e}\u{327}\u{301}","\u{146}\u{301}","\u{6e}\u{327}\u{301}"],["\u{f3}\u{327}","\u{6f}\u{327}\u{301}","\u{f3}\u{327}","\u{6f}\u{327}\u{301}"],["\u{1e55}\u{327}","\u{70}\u{327}\u{301}","\u{1e55}\u{327}","\u{70}\u{327}\u{301}"],["\u{71}\u{327}\u{301}","\u{71}\u{327}\u{301}","\u{71}\u{327}\u{301}","\u{71}\u{327}\u{301}"],["\u{157}\u{301}","\u{72}\u{327}\u{301}","\u{157}\u{301}","\u{72}\u{327}\u{301}"],["\u{15f}\u{301}","\u{73}\u{327}\u{301}","\u{15f}\u{301}","\u{73}\u{327}\u{301}"],["\u{163}\u{301}","\u{74}\u{327}\u{301}","\u{163}\u{301}","\u{74}\u{327}\u{301}"],["\u{fa}\u{327}","\u{75}\u{327}\u{301}","\u{fa}\u{327}","\u{75}\u{327}\u{301}"],["\u{76}\u{327}\u{301}","\u{76}\u{327}\u{301}","\u{76}\u{327}\u{301}","\u{76}\u{327}\u{301}"],["\u{1e83}\u{327}","\u{77}\u{327}\u{301}","\u{1e83}\u{327}","\u{77}\u{327}\u{301}"],["\u{78}\u{327}\u{301}","\u{78}\u{327}\u{301}","\u{78}\u{327}\u{301}","\u{78}\u{327}\u{301}"],["\u{fd}\u{327}","\u{79}\u{327}\u{301}","\u{fd}\u{327}","\u{79}\u{327}\u{301}"],["\u{17a}\u{327}","\u{7a}\u{327}\u{301}","\u{17a}\u{327}","\u{7a}\u{327}\u{301}"]],
[["\u{c1}\u{31b}","\u{41}\u{31b}\u{301}","\u{c1}\u{31b}","\u{41}\u{31b}\u{301}"],["\u{42}\u{31b}\u{301}","\u{42}\u{31b}\u{301}","\u{42}\u{31b}\u{301}","\u{42}\u{31b}\u{301}"],["\u{106}\u{31b}","\u{43}\u{31b}\u{301}","\u{106}\u{31b}","\u{43}\u{31b}\u{301}"],["\u{44}\u{31b}\u{301}","\u{44}\u{31b}\u{301}","\u{44}\u{31b}\u{301}","\u{44}\u{31b}\u{301}"],["\u{c9}\u{31b}","\u{45}\u{31b}\u{301}","\u{c9}\u{31b}","\u{45}\u{31b}\u{301}"],["\u{46}\u{31b}\u{301}","\u{46}\u{31b}\u{301}","\u{46}\u{31b}\u{301}","\u{46}\u{31b}\u{301}"],["\u{1f4}\u{31b}","\u{47}\u{31b}\u{301}","\u{1f4}\u{31b}","\u{47}\u{31b}\u{301}"],["\u{48}\u{31b}\u{301}","\u{48}\u{31b}\u{301}","\u{48}\u{31b}\u{301}","\u{48}\u{31b}\u{301}"],["\u{cd}\u{31b}","\u{49}\u{31b}\u{301}","\u{cd}\u{31b}","\u{49}\u{31b}\u{301}"],["\u{4a}\u{31b}\u{301}","\u{4a}\u{31b}\u{301}","\u{4a}\u{31b}\u{301}","\u{4a}\u{31b}\u{301}"],["\u{1e30}\u{31b}","\u{4b}\u{31b}\u{301}","\u{1e30}\u{31b}","\u{4b}\u{31b}\u{301}"],["\u{139}\u{31b}","\u{4c}\u{31b}\u{301}","\u{139}\u{31b}","\u{4c}\u{31b}\u{301}"],["\u{1e3e}\u{31b}","\u{4d}\u{31b}\u{301}","\u{1e3e}\u{31b}","\u{4d}\u{31b}\u{301}"],["\u{143}\u{31b}","\u{4e}\u{31b}\u{301}","\u{143}\u{31b}","\u{4e}\u{31b}\u{301}"],["\u{1eda}","\u{4f}\u{31b}\u{301}","\u{1eda}","\u{4f}\u{31b}\u{301}"],["\u{1e54}\u{31b}","\u{50}\u{31b}\u{301}","\u{1e54}\u{31b}","\u{50}\u{31b}\u{301}"],["\u{51}\u{31b}\u{301}","\u{51}\u{31b}\u{301}","\u{51}\u{31b}\u{301}","\u{51}\u{31b}\u{301}"],["\u{154}\u{31b}","\u{52}\u{31b}\u{301}","\u{154}\u{31b}","\u{52}\u{31b}\u{301}"],["\u{15a}\u{31b}","\u{53}\u{31b}\u{301}","\u{15a}\u{31b}","\u{53}\u{31b}\u{301}"],["\u{54}\u{31b}\u{301}","\u{54}\u{31b}\u{301}","\u{54}\u{31b}\u{301}","\u{54}\u{31b}\u{301}"],["\u{1ee8}","\u{55}\u{31b}\u{301}","\u{1ee8}","\u{55}\u{31b}\u{301}"],["\u{56}\u{31b}\u{301}","\u{56}\u{31b}\u{301}","\u{56}\u{31b}\u{301}","\u{56}\u{31b}\u{301}"],["\u{1e82}\u{31b}","\u{57}\u{31b}\u{301}","\u{1e82}\u{31b}","\u{57}\u{31b}\u{301}"],["\u{58}\u{31b}\u{301}","\u{58}\u{31b}\u{301}","\u{58}\u{31b}\u{301}","\u{58}\u{31b}\u{301}"],["\u{dd}\u{31b}","\u{59}\u{31b}\u{301}","\u{dd}\u{31b}","\u{59}\u{31b}\u{301}"],["\u{179}\u{31b}","\u{5a}\u{31b}\u{301}","\u{179}\u{31b}","\u{5a}\u{31b}\u{301}"],["\u{5b}\u{31b}\u{301}","\u{5b}\u{31b}\u{301}","\u{5b}\u{31b}\u{301}","\u{5b}\u{31b}\u{301}"],["\u{5c}\u{31b}\u{301}","\u{5c}\u{31b}\u{301}","\u{5c}\u{31b}\u{301}","\u{5c}\u{31b}\u{301}"],["\u{5d}\u{31b}\u{301}","\u{5d}\u{31b}\u{301}","\u{5d}\u{31b}\u{301}","\u{5d}\u{31b}\u{301}"],["\u{5e}\u{31b}\u{301}","\u{5e}\u{31b}\u{301}","\u{5e}\u{31b}\u{301}","\u{5e}\u{31b}\u{301}"],["\u{5f}\u{31b}\u{301}","\u{5f}\u{31b}\u{301}","\u{5f}\u{31b}\u{301}","\u{5f}\u{31b}\u{301}"],["\u{60}\u{31b}\u{301}","\u{60}\u{31b}\u{301}","\u{60}\u{31b}\u{301}","\u{60}\u{31b}\u{301}"],["\u{e1}\u{31b}","\u{61}\u{31b}\u{301}","\u{e1}\u{31b}","\u{61}\u{31b}\u{301}"],["\u{62}\u{31b}\u{301}","\u{62}\u{31b}\u{301}","\u{62}\u{31b}\u{301}","\u{62}\u{31b}\u{301}"],["\u{107}\u{31b}","\u{63}\u{31b}\u{301}","\u{107}\u{31b}","\u{63}\u{31b}\u{301}"],["\u{64}\u{31b}\u{301}","\u{64}\u{31b}\u{301}","\u{64}\u{31b}\u{301}","\u{64}\u{31b}\u{301}"],["\u{e9}\u{31b}","\u{65}\u{31b}\u{301}","\u{e9}\u{31b}","\u{65}\u{31b}\u{301}"],["\u{66}\u{31b}\u{301}","\u{66}\u{31b}\u{301}","\u{66}\u{31b}\u{301}","\u{66}\u{31b}\u{301}"],["\u{1f5}\u{31b}","\u{67}\u{31b}\u{301}","\u{1f5}\u{31b}","\u{67}\u{31b}\u{301}"],["\u{68}\u{31b}\u{301}","\u{68}\u{31b}\u{301}","\u{68}\u{31b}\u{301}","\u{68}\u{31b}\u{301}"],["\u{ed}\u{31b}","\u{69}\u{31b}\u{301}","\u{ed}\u{31b}","\u{69}\u{31b}\u{301}"],["\u{6a}\u{31b}\u{301}","\u{6a}\u{31b}\u{301}","\u{6a}\u{31b}\u{301}","\u{6a}\u{31b}\u{301}"],["\u{1e31}\u{31b}","\u{6b}\u{31b}\u{301}","\u{1e31}\u{31b}","\u{6b}\u{31b}\u{301}"],["\u{13a}\u{31b}","\u{6c}\u{31b}\u{301}","\u{13a}\u{31b}","\u{6c}\u{31b}\u{301}"],["\u{1e3f}\u{31b}","\u{6d}\u{31b}\u{301}","\u{1e3f}\u{31b}","\u{6d}\u{31b}\u{301}"],["\u{144}\u{31b}","\u{6e}\u{31b}\u{301}","\u{144}\u{31b}","\u{6e}\u{31b}\u{301}"],["\u{1edb}","\u{6f}\u{31b}\u{301}","\u{1edb}","\u{6f}\u{31b}\u{301}"],["\u{1e55}\u{31b}","\u{70}\u{31b}\u{301}","\u{1e55}\u{31b}","\u{70}\u{31b}\u{301}"],["\u{71}\u{31b}\u{301}","\u{71}\u{31b}\u{301}","\u{71}\u{31b}\u{301}","\u{71}\u{31b}\u{301}"],["\u{155}\u{31b}","\u{72}\u{31b}\u{301}","\u{155}\u{31b}","\u{72}\u{31b}\u{301}"],["\u{15b}\u{31b}","\u{73}\u{31b}\u{301}","\u{15b}\u{31b}","\u{73}\u{31b}\u{301}"],["\u{74}\u{31b}\u{301}","\u{74}\u{31b}\u{301}","\u{74}\u{31b}\u{301}","\u{74}\u{31b}\u{301}"],["\u{1ee9}","\u{75}\u{31b}\u{301}","\u{1ee9}","\u{75}\u{31b}\u{301}"],["\u{76}\u{31b}\u{301}","\u{76}\u{31b}\u{301}","\u{76}\u{31b}\u{301}","\u{76}\u{31b}\u{301}"],["\u{1e83}\u{31b}","\u{77}\u{31b}\u{301}","\u{1e83}\u{31b}","\u{77}\u{31b}\u{301}"],["\u{78}\u{31b}\u{301}","\u{78}\u{31b}\u{301}","\u{78}\u{31b}\u{301}","\u{78}\u{31b}\u{301}"],["\u{fd}\u{31b}","\u{79}\u{31b}\u{301}","\u{fd}\u{31b}","\u{79}\u{31b}\u{301}"],["\u{17a}\u{31b}","\u{7a}\u{31b}\u{301}","\u{17a}\u{31b}","\u{7a}\u{31b}\u{301}"]],
[["\u{c1}\u{345}","\u{41}\u{301}\u{345}","\u{c1}\u{345}","\u{41}\u{301}\u{345}"],["\u{42}\u{301}\u{345}","\u{42}\u{301}\u{345}","\u{42}\u{301}\u{345}","\u{42}\u{301}\u{345}"],["\u{106}\u{345}","\u{43}\u{301}\u{345}","\u{106}\u{345}","\u{43}\u{301}\u{345}"],["\u{44}\u{301}\u{345}","\u{44}\u{301}\u{345}","\u{44}\u{301}\u{345}","\u{44}\u{301}\u{345}"],["\u{c9}\u{345}","\u{45}\u{301}\u{345}","\u{c9}\u{345}","\u{45}\u{301}\u{345}"],["\u{46}\u{301}\u{345}","\u{46}\u{301}\u{345}","\u{46}\u{301}\u{345}","\u{46}\u{301}\u{345}"],["\u{1f4}\u{345}","\u{47}\u{301}\u{345}","\u{1f4}\u{345}","\u{47}\u{301}\u{345}"],["\u{48}\u{301}\u{345}","\u{48}\u{301}\u{345}","\u{48}\u{301}\u{345}","\u{48}\u{301}\u{345}"],["\u{cd}\u{345}","\u{49}\u{301}\u{345}","\u{cd}\u{345}","\u{49}\u{301}\u{345}"],["\u{4a}\u{301}\u{345}","\u{4a}\u{301}\u{345}","\u{4a}\u{301}\u{345}","\u{4a}\u{301}\u{345}"],["\u{1e30}\u{345}","\u{4b}\u{301}\u{345}","\u{1e30}\u{345}","\u{4b}\u{301}\u{345}"],["\u{139}\u{345}","\u{4c}\u{301}\u{345}","\u{139}\u{345}","\u{4c}\u{301}\u{345}"],["\u{1e3e}\u{345}","\u{4d}\u{301}\u{345}","\u{1e3e}\u{345}","\u{4d}\u{301}\u{345}"],["\u{143}\u{345}","\u{4e}\u{301}\u{345}","\u{143}\u{345}","\u{4e}\u{301}\u{345}"],["\u{d3}\u{345}","\u{4f}\u{301}\u{345}","\u{d3}\u{345}","\u{4f}\u{301}\u{345}"],["\u{1e54}\u{345}","\u{50}\u{301}\u{345}","\u{1e54}\u{345}","\u{50}\u{301}\u{345}"],["\u{51}\u{301}\u{345}","\u{51}\u{301}\u{345}","\u{51}\u{301}\u{345}","\u{51}\u{301}\u{345}"],["\u{154}\u{345}","\u{52}\u{301}\u{345}","\u{154}\u{345}","\u{52}\u{301}\u{345}"],["\u{15a}\u{345}","\u{53}\u{301}\u{345}","\u{15a}\u{345}","\u{53}\u{301}\u{345}"],["\u{54}\u{301}\u{345}","\u{54}\u{301}\u{345}","\u{54}\u{301}\u{345}","\u{54}\u{301}\u{345}"],["\u{da}\u{345}","\u{55}\u{301}\u{345}","\u{da}\u{345}","\u{55}\u{301}\u{345}"],["\u{56}\u{301}\u{345}","\u{56}\u{301}\u{345}","\u{56}\u{301}\u{345}","\u{56}\u{301}\u{345}"],["\u{1e82}\u{345}","\u{57}\u{301}\u{345}","\u{1e82}\u{345}","\u{57}\u{301}\u{345}"],["\u{58}\u{301}\u{345}","\u{58}\u{301}\u{345}","\u{58}\u{301}\u{345}","\u{58}\u{301}\u{345}"],["\u{dd}\u{345}","\u{59}\u{301}\u{345}","\u{dd}\u{345}","\u{59}\u{301}\u{345}"],["\u{179}\u{345}","\u{5a}\u{301}\u{345}","\u{179}\u{345}","\u{5a}\u{301}\u{345}"],["\u{5b}\u{301}\u{345}","\u{5b}\u{301}\u{345}","\u{5b}\u{301}\u{345}","\u{5b}\u{301}\u{345}"],["\u{5c}\u{301}\u{345}","\u{5c}\u{301}\u{345}","\u{5c}\u{301}\u{345}","\u{5c}\u{301}\u{345}"],["\u{5d}\u{301}\u{345}","\u{5d}\u{301}\u{345}","\u{5d}\u{301}\u{345}","\u{5d}\u{301}\u{345}"],["\u{5e}\u{301}\u{345}","\u{5e}\u{301}\u{345}","\u{5e}\u{301}\u{345}","\u{5e}\u{301}\u{345}"],["\u{5f}\u{301}\u{345}","\u{5f}\u{301}\u{345}","\u{5f}\u{301}\u{345}","\u{5f}\u{301}\u{345}"],["\u{60}\u{301}\u{345}","\u{60}\u{301}\u{345}","\u{60}\u{301}\u{345}","\u{60}\u{301}\u{345}"],["\u{e1}\u{345}","\u{61}\u{301}\u{345}","\u{e1}\u{345}","\u{61}\u{301}\u{345}"],["\u{62}\u{301}\u{345}","\u{62}\u{301}\u{345}","\u{62}\u{301}\u{345}","\u{62}\u{301}\u{345}"],["\u{107}\u{345}","\u{63}\u{301}\u{345}","\u{107}\u{345}","\u{63}\u{301}\u{345}"],["\u{64}\u{301}\u{345}","\u{64}\u{301}\u{345}","\u{64}\u{301}\u{345}","\u{64}\u{301}\u{345}"],["\u{e9}\u{345}","\u{65}\u{301}\u{345}","\u{e9}\u{345}","\u{65}\u{301}\u{345}"],["\u{66}\u{301}\u{345}","\u{66}\u{301}\u{345}","\u{66}\u{301}\u{345}","\u{66}\u{301}\u{345}"],["\u{1f5}\u{345}","\u{67}\u{301}\u{345}","\u{1f5}\u{345}","\u{67}\u{301}\u{345}"],["\u{68}\u{301}\u{345}","\u{68}\u{301}\u{345}","\u{68}\u{301}\u{345}","\u{68}\u{301}\u{345}"],["\u{ed}\u{345}","\u{69}\u{301}\u{345}","\u{ed}\u{345}","\u{69}\u{301}\u{345}"],["\u{6a}\u{301}\u{345}","\u{6a}\u{301}\u{345}","\u{6a}\u{301}\u{345}","\u{6a}\u{301}\u{345}"],["\u{1e31}\u{345}","\u{6b}\u{301}\u{345}","\u{1e31}\u{345}","\u{6b}\u{301}\u{345}"],["\u{13a}\u{345}","\u{6c}\u{301}\u{345}","\u{13a}\u{345}","\u{6c}\u{301}\u{345}"],["\u{1e3f}\u{345}","\u{6d}\u{301}\u{345}","\u{1e3f}\u{345}","\u{6d}\u{301}\u{345}"],["\u{144}\u{345}","\u{6e}\u{301}\u{345}","\u{144}\u{345}","\u{6e}\u{301}\u{345}"],["\u{f3}\u{345}","\u{6f}\u{301}\u{345}","\u{f3}\u{345}","\u{6f}\u{301}\u{345}"],["\u{1e55}\u{345}","\u{70}\u{301}\u{345}","\u{1e55}\u{345}","\u{70}\u{301}\u{345}"],["\u{71}\u{301}\u{345}","\u{71}\u{301}\u{345}","\u{71}\u{301}\u{345}","\u{71}\u{301}\u{345}"],["\u{155}\u{345}","\u{72}\u{301}\u{345}","\u{155}\u{345}","\u{72}\u{301}\u{345}"],["\u{15b}\u{345}","\u{73}\u{301}\u{345}","\u{15b}\u{345}","\u{73}\u{301}\u{345}"],["\u{74}\u{301}\u{345}","\u{74}\u{301}\u{345}","\u{74}\u{301}\u{345}","\u{74}\u{301}\u{345}"],["\u{fa}\u{345}","\u{75}\u{301}\u{345}","\u{fa}\u{345}","\u{75}\u{301}\u{345}"],["\u{76}\u{301}\u{345}","\u{76}\u{301}\u{345}","\u{76}\u{301}\u{345}","\u{76}\u{301}\u{345}"],["\u{1e83}\u{345}","\u{77}\u{301}\u{345}","\u{1e83}\u{345}","\u{77}\u{301}\u{345}"],["\u{78}\u{301}\u{345}","\u{78}\u{301}\u{345}","\u{78}\u{301}\u{345}","\u{78}\u{301}\u{345}"],["\u{fd}\u{345}","\u{79}\u{301}\u{345}","\u{fd}\u{345}","\u{79}\u{301}\u{345}"],["\u{17a}\u{345}","\u{7a}\u{301}\u{345}","\u{17a}\u{345}","\u{7a}\u{301}\u{345}"]],
[["\u{c1}\u{20d2}","\u{41}\u{20d2}\u{301}","\u{c1}\u{20d2}","\u{41}\u{20d2}\u{301}"],["\u{42}\u{20d2}\u{301}","\u{42}\u{20d2}\u{301}","\u{42}\u{20d2}\u{301}","\u{42}\u{20d2}\u{301}"],["\u{106}\u{20d2}","\u{43}\u{20d2}\u{301}","\u{106}\u{20d2}","\u{43}\u{20d2}\u{301}"],["\u{44}\u{20d2}\u{301}","\u{44}\u{20d2}\u{301}","\u{44}\u{20d2}\u{301}","\u{44}\u{20d2}\u{301}"],["\u{c9}\u{20d2}","\u{45}\u{20d2}\u{301}","\u{c9}\u{20d2}","\u{45}\u{20d2}\u{301}"],["\u{46}\u{20d2}\u{301}","\u{46}\u{20d2}\u{301}","\u{46}\u{20d2}\u{301}","\u{46}\u{20d2}\u{301}"],["\u{1f4}\u{20d2}","\u{47}\u{20d2}\u{301}","\u{1f4}\u{20d2}","\u{47}\u{20d2}\u{301}"],["\u{48}\u{20d2}\u{301}","\u{48}\u{20d2}\u{301}","\u{48}\u{20d2}\u{301}","\u{48}\u{20d2}\u{301}"],["\u{cd}\u{20d2}","\u{49}\u{20d2}\u{301}","\u{cd}\u{20d2}","\u{49}\u{20d2}\u{301}"],["\u{4a}\u{20d2}\u{301}","\u{4a}\u{20d2}\u{301}","\u{4a}\u{20d2}\u{301}","\u{4a}\u{20d2}\u{301}"],["\u{1e30}\u{20d2}","\u{4b}\u{20d2}\u{301}","\u{1e30}\u{20d2}","\u{4b}\u{20d2}\u{301}"],["\u{139}\u{20d2}","\u{4c}\u{20d2}\u{301}","\u{139}\u{20d2}","\u{4c}\u{20d2}\u{301}"],["\u{1e3e}\u{20d2}","\u{4d}\u{20d2}\u{301}","\u{1e3e}\u{20d2}","\u{4d}\u{20d2}\u{301}"],["\u{143}\u{20d2}","\u{4e}\u{20d2}\u{301}","\u{143}\u{20d2}","\u{4e}\u{20d2}\u{301}"],["\u{d3}\u{20d2}","\u{4f}\u{20d2}\u{301}","\u{d3}\u{20d2}","\u{4f}\u{20d2}\u{301}"],["\u{1e54}\u{20d2}","\u{50}\u{20d2}\u{301}","\u{1e54}\u{20d2}","\u{50}\u{20d2}\u{301}"],["\u{51}\u{20d2}\u{301}","\u{51}\u{20d2}\u{301}","\u{51}\u{20d2}\u{301}","\u{51}\u{20d2}\u{301}"],["\u{154}\u{20d2}","\u{52}\u{20d2}\u{301}","\u{154}\u{20d2}","\u{52}\u{20d2}\u{301}"],["\u{15a}\u{20d2}","\u{53}\u{20d2}\u{301}","\u{15a}\u{20d2}","\u{53}\u{20d2}\u{301}"],["\u{54}\u{20d2}\u{301}","\u{54}\u{20d2}\u{301}","\u{54}\u{20d2}\u{301}","\u{54}\u{20d2}\u{301}"],["\u{da}\u{20d2}","\u{55}\u{20d2}\u{301}","\u{da}\u{20d2}","\u{55}\u{20d2}\u{301}"],["\u{56}\u{20d2}\u{301}","\u{56}\u{20d2}\u{301}","\u{56}\u{20d2}\u{301}","\u{56}\u{20d2}\u{301}"],["\u{1e82}\u{20d2}","\u{57}\u{20d2}\u{301}","\u{1e82}\u{20d2}","\u{57}\u{20d2}\u{301}"],["\u{58}\u{20d2}\u{301}","\u{58}\u{20d2}\u{301}","\u{58}\u{20d2}\u{301}","\u{58}\u{20d2}\u{301}"],["\u{dd}\u{20d2}","\u{59}\u{20d2}\u{301}","\u{dd}\u{20d2}","\u{59}\u{20d2}\u{301}"],["\u{179}\u{20d2}","\u{5a}\u{20d2}\u{301}","\u{179}\u{20d2}","\u{5a}\u{20d2}\u{301}"],["\u{5b}\u{20d2}\u{301}","\u{5b}\u{20d2}\u{301}","\u{5b}\u{20d2}\u{301}","\u{5b}\u{20d2}\u{301}"],["\u{5c}\u{20d2}\u{301}","\u{5c}\u{20d2}\u{301}","\u{5c}\u{20d2}\u{301}","\u{5c}\u{20d2}\u{301}"],["\u{5d}\u{20d2}\u{301}","\u{5d}\u{20d2}\u{301}","\u{5d}\u{20d2}\u{301}","\u{5d}\u{20d2}\u{301}"],["\u{5e}\u{20d2}\u{301}","\u{5e}\u{20d2}\u{301}","\u{5e}\u{20d2}\u{301}","\u{5e}\u{20d2}\u{301}"],["\u{5f}\u{20d2}\u{301}","\u{5f}\u{20d2}\u{301}","\u{5f}\u{20d2}\u{301}","\u{5f}\u{20d2}\u{301}"],["\u{60}\u{20d2}\u{301}","\u{60}\u{20d2}\u{301}","\u{60}\u{20d2}\u{301}","\u{60}\u{20d2}\u{301}"],["\u{e1}\u{20d2}","\u{61}\u{20d2}\u{301}","\u{e1}\u{20d2}","\u{61}\u{20d2}\u{301}"],["\u{62}\u{20d2}\u{301}","\u{62}\u{20d2}\u{301}","\u{62}\u{20d2}\u{301}","\u{62}\u{20d2}\u{301}"],["\u{107}\u{20d2}","\u{63}\u{20d2}\u{301}","\u{107}\u{20d2}","\u{63}\u{20d2}\u{301}"],["\u{64}\u{20d2}\u{301}","\u{64}\u{20d2}\u{301}","\u{64}\u{20d2}\u{301}","\u{64}\u{20d2}\u{301}"],["\u{e9}\u{20d2}","\u{65}\u{20d2}\u{301}","\u{e9}\u{20d2}","\u{65}\u{20d2}\u{301}"],["\u{66}\u{20d2}\u{301}","\u{66}\u{20d2}\u{301}","\u{66}\u{20d2}\u{301}","\u{66}\u{20d2}\u{301}"],["\u{1f5}\u{20d2}","\u{67}\u{20d2}\u{301}","\u{1f5}\u{20d2}","\u{67}\u{20d2}\u{301}"],["\u{68}\u{20d2}\u{301}","\u{68}\u{20d2}\u{301}","\u{68}\u{20d2}\u{301}","\u{68}\u{20d2}\u{301}"],["\u{ed}\u{20d2}","\u{69}\u{20d2}\u{301}","\u{ed}\u{20d2}","\u{69}\u{20d2}\u{301}"],["\u{6a}\u{20d2}\u{301}","\u{6a}\u{20d2}\u{301}","\u{6a}\u{20d2}\u{301}","\u{6a}\u{20d2}\u{301}"],["\u{1e31}\u{20d2}","\u{6b}\u{20d2}\u{301}","\u{1e31}\u{20d2}","\u{6b}\u{20d2}\u{301}"],["\u{13a}\u{20d2}","\u{6c}\u{20d2}\u{301}","\u{13a}\u{20d2}","\u{6c}\u{20d2}\u{301}"],["\u{1e3f}\u{20d2}","\u{6d}\u{20d2}\u{301}","\u{1e3f}\u{20d2}","\u{6d}\u{20d2}\u{301}"],["\u{144}\u{20d2}","\u{6e}\u{20d2}\u{301}","\u{144}\u{20d2}","\u{6e}\u{20d2}\u{301}"],["\u{f3}\u{20d2}","\u{6f}\u{20d2}\u{301}","\u{f3}\u{20d2}","\u{6f}\u{20d2}\u{301}"],["\u{1e55}\u{20d2}","\u{70}\u{20d2}\u{301}","\u{1e55}\u{20d2}","\u{70}\u{20d2}\u{301}"],["\u{71}\u{20d2}\u{301}","\u{71}\u{20d2}\u{301}","\u{71}\u{20d2}\u{301}","\u{71}\u{20d2}\u{301}"],["\u{155}\u{20d2}","\u{72}\u{20d2}\u{301}","\u{155}\u{20d2}","\u{72}\u{20d2}\u{301}"],["\u{15b}\u{20d2}","\u{73}\u{20d2}\u{301}","\u{15b}\u{20d2}","\u{73}\u{20d2}\u{301}"],["\u{74}\u{20d2}\u{301}","\u{74}\u{20d2}\u{301}","\u{74}\u{20d2}\u{301}","\u{74}\u{20d2}\u{301}"],["\u{fa}\u{20d2}","\u{75}\u{20d2}\u{301}","\u{fa}\u{20d2}","\u{75}\u{20d2}\u{301}"],["\u{76}\u{20d2}\u{301}","\u{76}\u{20d2}\u{301}","\u{76}\u{20d2}\u{301}","\u{76}\u{20d2}\u{301}"],["\u{1e83}\u{20d2}","\u{77}\u{20d2}\u{301}","\u{1e83}\u{20d2}","\u{77}\u{20d2}\u{301}"],["\u{78}\u{20d2}\u{301}","\u{78}\u{20d2}\u{301}","\u{78}\u{20d2}\u{301}","\u{78}\u{20d2}\u{301}"],["\u{fd}\u{20d2}","\u{79}\u{20d2}\u{301}","\u{fd}\u{20d2}","\u{79}\u{20d2}\u{301}"],["\u{17a}\u{20d2}","\u{7a}\u{20d2}\u{301}","\u{17a}\u{20d2}","\u{7a}\u{20d2}\u{301}"]],
[["\u{1ea6}","\u{41}\u{302}\u{300}","\u{1ea6}","\u{41}\u{302}\u{300}"],["\u{42}\u{302}\u{300}","\u{42}\u{302}\u{300}","\u{42}\u{302}\u{300}","\u{42}\u{302}\u{300}"],["\u{108}\u{300}","\u{43}\u{302}\u{300}","\u{108}\u{300}","\u{43}\u{302}\u{300}"],["\u{44}\u{302}\u{300}","\u{44}\u{302}\u{300}","\u{44}\u{302}\u{300}","\u{44}\u{302}\u{300}"],["\u{1ec0}","\u{45}\u{302}\u{300}","\u{1ec0}","\u{45}\u{302}\u{300}"],["\u{46}\u{302}\u{300}","\u{46}\u{302}\u{300}","\u{46}\u{302}\u{300}","\u{46}\u{302}\u{300}"],["\u{11c}\u{300}","\u{47}\u{302}\u{300}","\u{11c}\u{300}","\u{47}\u{302}\u{300}"],["\u{124}\u{300}","\u{48}\u{302}\u{300}","\u{124}\u{300}","\u{48}\u{302}\u{300}"],["\u{ce}\u{300}","\u{49}\u{302}\u{300}","\u{ce}\u{300}","\u{49}\u{302}\u{300}"],["\u{134}\u{300}","\u{4a}\u{302}\u{300}","\u{134}\u{300}","\u{4a}\u{302}\u{300}"],["\u{4b}\u{302}\u{300}","\u{4b}\u{302}\u{300}","\u{4b}\u{302}\u{300}","\u{4b}\u{302}\u{300}"],["\u{4c}\u{302}\u{300}","\u{4c}\u{302}\u{300}","\u{4c}\u{302}\u{300}","\u{4c}\u{302}\u{300}"],["\u{4d}\u{302}\u{300}","\u{4d}\u{302}\u{300}","\u{4d}\u{302}\u{300}","\u{4d}\u{302}\u{300}"],["\u{4e}\u{302}\u{300}","\u{4e}\u{302}\u{300}","\u{4e}\u{302}\u{300}","\u{4e}\u{302}\u{300}"],["\u{1ed2}","\u{4f}\u{302}\u{300}","\u{1ed2}","\u{4f}\u{302}\u{300}"],["\u{50}\u{302}\u{300}","\u{50}\u{302}\u{300}","\u{50}\u{302}\u{300}","\u{50}\u{302}\u{300}"],["\u{51}\u{302}\u{300}","\u{51}\u{302}\u{300}","\u{51}\u{302}\u{300}","\u{51}\u{302}\u{300}"],["\u{52}\u{302}\u{300}","\u{52}\u{302}\u{300}","\u{52}\u{302}\u{300}","\u{52}\u{302}\u{300}"],["\u{15c}\u{300}","\u{53}\u{302}\u{300}","\u{15c}\u{300}","\u{53}\u{302}\u{300}"],["\u{54}\u{302}\u{300}","\u{54}\u{302}\u{300}","\u{54}\u{302}\u{300}","\u{54}\u{302}\u{300}"],["\u{db}\u{300}","\u{55}\u{302}\u{300}","\u{db}\u{300}","\u{55}\u{302}\u{300}"],["\u{56}\u{302}\u{300}","\u{56}\u{302}\u{300}","\u{56}\u{302}\u{300}","\u{56}\u{302}\u{300}"],["\u{174}\u{300}","\u{57}\u{302}\u{300}","\u{174}\u{300}","\u{57}\u{302}\u{300}"],["\u{58}\u{302}\u{300}","\u{58}\u{302}\u{300}","\u{58}\u{302}\u{300}","\u{58}\u{302}\u{300}"],["\u{176}\u{300}","\u{59}\u{302}\u{300}","\u{176}\u{300}","\u{59}\u{302}\u{300}"],["\u{1e90}\u{300}","\u{5a}\u{302}\u{300}","\u{1e90}\u{300}","\u{5a}\u{302}\u{300}"],["\u{5b}\u{302}\u{300}","\u{5b}\u{302}\u{300}","\u{5b}\u{302}\u{300}","\u{5b}\u{302}\u{300}"],["\u{5c}\u{302}\u{300}","\u{5c}\u{302}\u{300}","\u{5c}\u{302}\u{300}","\u{5c}\u{302}\u{300}"],["\u{5d}\u{302}\u{300}","\u{5d}\u{302}\u{300}","\u{5d}\u{302}\u{300}","\u{5d}\u{302}\u{300}"],["\u{5e}\u{302}\u{300}","\u{5e}\u{302}\u{300}","\u{5e}\u{302}\u{300}","\u{5e}\u{302}\u{300}"],["\u{5f}\u{302}\u{300}","\u{5f}\u{302}\u{300}","\u{5f}\u{302}\u{300}","\u{5f}\u{302}\u{300}"],["\u{60}\u{302}\u{300}","\u{60}\u{302}\u{300}","\u{60}\u{302}\u{300}","\u{60}\u{302}\u{300}"],["\u{1ea7}","\u{61}\u{302}\u{300}","\u{1ea7}","\u{61}\u{302}\u{300}"],["\u{62}\u{302}\u{300}","\u{62}\u{302}\u{300}","\u{62}\u{302}\u{300}","\u{62}\u{302}\u{300}"],["\u{109}\u{300}","\u{63}\u{302}\u{300}","\u{109}\u{300}","\u{63}\u{302}\u{300}"],["\u{64}\u{302}\u{300}","\u{64}\u{302}\u{300}","\u{64}\u{302}\u{300}","\u{64}\u{302}\u{300}"],["\u{1ec1}","\u{65}\u{302}\u{300}","\u{1ec1}","\u{65}\u{302}\u{300}"],["\u{66}\u{302}\u{300}","\u{66}\u{302}\u{300}","\u{66}\u{302}\u{300}","\u{66}\u{302}\u{300}"],["\u{11d}\u{300}","\u{67}\u{302}\u{300}","\u{11d}\u{300}","\u{67}\u{302}\u{300}"],["\u{125}\u{300}","\u{68}\u{302}\u{300}","\u{125}\u{300}","\u{68}\u{302}\u{300}"],["\u{ee}\u{300}","\u{69}\u{302}\u{300}","\u{ee}\u{300}","\u{69}\u{302}\u{300}"],["\u{135}\u{300}","\u{6a}\u{302}\u{300}","\u{135}\u{300}","\u{6a}\u{302}\u{300}"],["\u{6b}\u{302}\u{300}","\u{6b}\u{302}\u{300}","\u{6b}\u{302}\u{300}","\u{6b}\u{302}\u{300}"],["\u{6c}\u{302}\u{300}","\u{6c}\u{302}\u{300}","\u{6c}\u{302}\u{300}","\u{6c}\u{302}\u{300}"],["\u{6d}\u{302}\u{300}","\u{6d}\u{302}\u{300}","\u{6d}\u{302}\u{300}","\u{6d}\u{302}\u{300}"],["\u{6e}\u{302}\u{300}","\u{6e}\u{302}\u{300}","\u{6e}\u{302}\u{300}","\u{6e}\u{302}\u{300}"],["\u{1ed3}","\u{6f}\u{302}\u{300}","\u{1ed3}","\u{6f}\u{302}\u{300}"],["\u{70}\u{302}\u{300}","\u{70}\u{302}\u{300}","\u{70}\u{302}\u{300}","\u{70}\u{302}\u{300}"],["\u{71}\u{302}\u{300}","\u{71}\u{302}\u{300}","\u{71}\u{302}\u{300}","\u{71}\u{302}\u{300}"],["\u{72}\u{302}\u{300}","\u{72}\u{302}\u{300}","\u{72}\u{302}\u{300}","\u{72}\u{302}\u{300}"],["\u{15d}\u{300}","\u{73}\u{302}\u{300}","\u{15d}\u{300}","\u{73}\u{302}\u{300}"],["\u{74}\u{302}\u{300}","\u{74}\u{302}\u{300}","\u{74}\u{302}\u{300}","\u{74}\u{302}\u{300}"],["\u{fb}\u{300}","\u{75}\u{302}\u{300}","\u{fb}\u{300}","\u{75}\u{302}\u{300}"],["\u{76}\u{302}\u{300}","\u{76}\u{302}\u{300}","\u{76}\u{302}\u{300}","\u{76}\u{302}\u{300}"],["\u{175}\u{300}","\u{77}\u{302}\u{300}","\u{175}\u{300}","\u{77}\u{302}\u{300}"],["\u{78}\u{302}\u{300}","\u{78}\u{302}\u{300}","\u{78}\u{302}\u{300}","\u{78}\u{302}\u{300}"],["\u{177}\u{300}","\u{79}\u{302}\u{300}","\u{177}\u{300}","\u{79}\u{302}\u{300}"],["\u{1e91}\u{300}","\u{7a}\u{302}\u{300}","\u{1e91}\u{300}","\u{7a}\u{302}\u{300}"]],
[["\u{1ea4}","\u{41}\u{302}\u{301}","\u{1ea4}","\u{41}\u{302}\u{301}"],["\u{42}\u{302}\u{301}","\u{42}\u{302}\u{301}","\u{42}\u{302}\u{301}","\u{42}\u{302}\u{301}"],["\u{108}\u{301}","\u{43}\u{302}\u{301}","\u{108}\u{301}","\u{43}\u{302}\u{301}"],["\u{44}\u{302}\u{301}","\u{44}\u{302}\u{301}","\u{44}\u{302}\u{301}","\u{44}\u{302}\u{301}"],["\u{1ebe}","\u{45}\u{302}\u{301}","\u{1ebe}","\u{45}\u{302}\u{301}"],["\u{46}\u{302}\u{301}","\u{46}\u{302}\u{301}","\u{46}\u{302}\u{301}","\u{46}\u{302}\u{301}"],["\u{11c}\u{301}","\u{47}\u{302}\u{301}","\u{11c}\u{301}","\u{47}\u{302}\u{301}"],["\u{124}\u{301}","\u{48}\u{302}\u{301}","\u{124}\u{301}","\u{48}\u{302}\u{301}"],["\u{ce}\u{301}","\u{49}\u{302}\u{301}","\u{ce}\u{301}","\u{49}\u{302}\u{301}"],["\u{134}\u{301}","\u{4a}\u{302}\u{301}","\u{134}\u{301}","\u{4a}\u{302}\u{301}"],["\u{4b}\u{302}\u{301}","\u{4b}\u{302}\u{301}","\u{4b}\u{302}\u{301}","\u{4b}\u{302}\u{301}"],["\u{4c}\u{302}\u{301}","\u{4c}\u{302}\u{301}","\u{4c}\u{302}\u{301}","\u{4c}\u{302}\u{301}"],["\u{4d}\u{302}\u{301}","\u{4d}\u{302}\u{301}","\u{4d}\u{302}\u{301}","\u{4d}\u{302}\u{301}"],["\u{4e}\u{302}\u{301}","\u{4e}\u{302}\u{301}","\u{4e}\u{302}\u{301}","\u{4e}\u{302}\u{301}"],["\u{1ed0}","\u{4f}\u{302}\u{301}","\u{1ed0}","\u{4f}\u{302}\u{301}"],["\u{50}\u{302}\u{301}","\u{50}\u{302}\u{301}","\u{50}\u{302}\u{301}","\u{50}\u{302}\u{301}"],["\u{51}\u{302}\u{301}","\u{51}\u{302}\u{301}","\u{51}\u{302}\u{301}","\u{51}\u{302}\u{301}"],["\u{52}\u{302}\u{301}","\u{52}\u{302}\u{301}","\u{52}\u{302}\u{301}","\u{52}\u{302}\u{301}"],["\u{15c}\u{301}","\u{53}\u{302}\u{301}","\u{15c}\u{301}","\u{53}\u{302}\u{301}"],["\u{54}\u{302}\u{301}","\u{54}\u{302}\u{301}","\u{54}\u{302}\u{301}","\u{54}\u{302}\u{301}"],["\u{db}\u{301}","\u{55}\u{302}\u{301}","\u{db}\u{301}","\u{55}\u{302}\u{301}"],["\u{56}\u{302}\u{301}","\u{56}\u{302}\u{301}","\u{56}\u{302}\u{301}","\u{56}\u{302}\u{301}"],["\u{174}\u{301}","\u{57}\u{302}\u{301}","\u{174}\u{301}","\u{57}\u{302}\u{301}"],["\u{58}\u{302}\u{301}","\u{58}\u{302}\u{301}","\u{58}\u{302}\u{301}","\u{58}\u{302}\u{301}"],["\u{176}\u{301}","\u{59}\u{302}\u{301}","\u{176}\u{301}","\u{59}\u{302}\u{301}"],["\u{1e90}\u{301}","\u{5a}\u{302}\u{301}","\u{1e90}\u{301}","\u{5a}\u{302}\u{301}"],["\u{5b}\u{302}\u{301}","\u{5b}\u{302}\u{301}","\u{5b}\u{302}\u{301}","\u{5b}\u{302}\u{301}"],["\u{5c}\u{302}\u{301}","\u{5c}\u{302}\u{301}","\u{5c}\u{302}\u{301}","\u{5c}\u{302}\u{301}"],["\u{5d}\u{302}\u{301}","\u{5d}\u{302}\u{301}","\u{5d}\u{302}\u{301}","\u{5d}\u{302}\u{301}"],["\u{5e}\u{302}\u{301}","\u{5e}\u{302}\u{301}","\u{5e}\u{302}\u{301}","\u{5e}\u{302}\u{301}"],["\u{5f}\u{302}\u{301}","\u{5f}\u{302}\u{301}","\u{5f}\u{302}\u{301}","\u{5f}\u{302}\u{301}"],["\u{60}\u{302}\u{301}","\u{60}\u{302}\u{301}","\u{60}\u{302}\u{301}","\u{60}\u{302}\u{301}"],["\u{1ea5}","\u{61}\u{302}\u{301}","\u{1ea5}","\u{61}\u{302}\u{301}"],["\u{62}\u{302}\u{301}","\u{62}\u{302}\u{301}","\u{62}\u{302}\u{301}","\u{62}\u{302}\u{301}"],["\u{109}\u{301}","\u{63}\u{302}\u{301}","\u{109}\u{301}","\u{63}\u{302}\u{301}"],["\u{64}\u{302}\u{301}","\u{64}\u{302}\u{301}","\u{64}\u{302}\u{301}","\u{64}\u{302}\u{301}"],["\u{1ebf}","\u{65}\u{302}\u{301}","\u{1ebf}","\u{65}\u{302}\u{301}"],["\u{66}\u{302}\u{301}","\u{66}\u{302}\u{301}","\u{66}\u{302}\u{301}","\u{66}\u{302}\u{301}"],["\u{11d}\u{301}","\u{67}\u{302}\u{301}","\u{11d}\u{301}","\u{67}\u{302}\u{301}"],["\u{125}\u{301}","\u{68}\u{302}\u{301}","\u{125}\u{301}","\u{68}\u{302}\u{301}"],["\u{ee}\u{301}","\u{69}\u{302}\u{301}","\u{ee}\u{301}","\u{69}\u{302}\u{301}"],["\u{135}\u{301}","\u{6a}\u{302}\u{301}","\u{135}\u{301}","\u{6a}\u{302}\u{301}"],["\u{6b}\u{302}\u{301}","\u{6b}\u{302}\u{301}","\u{6b}\u{302}\u{301}","\u{6b}\u{302}\u{301}"],["\u{6c}\u{302}\u{301}","\u{6c}\u{302}\u{301}","\u{6c}\u{302}\u{301}","\u{6c}\u{302}\u{301}"],["\u{6d}\u{302}\u{301}","\u{6d}\u{302}\u{301}","\u{6d}\u{302}\u{301}","\u{6d}\u{302}\u{301}"],["\u{6e}\u{302}\u{301}","\u{6e}\u{302}\u{301}","\u{6e}\u{302}\u{301}","\u{6e}\u{302}\u{301}"],["\u{1ed1}","\u{6f}\u{302}\u{301}","\u{1ed1}","\u{6f}\u{302}\u{301}"],["\u{70}\u{302}\u{301}","\u{70}\u{302}\u{301}","\u{70}\u{302}\u{301}","\u{70}\u{302}\u{301}"],["\u{71}\u{302}\u{301}","\u{71}\u{302}\u{301}","\u{71}\u{302}\u{301}","\u{71}\u{302}\u{301}"],["\u{72}\u{302}\u{301}","\u{72}\u{302}\u{301}","\u{72}\u{302}\u{301}","\u{72}\u{302}\u{301}"],["\u{15d}\u{301}","\u{73}\u{302}\u{301}","\u{15d}\u{301}","\u{73}\u{302}\u{301}"],["\u{74}\u{302}\u{301}","\u{74}\u{302}\u{301}","\u{74}\u{302}\u{301}","\u{74}\u{302}\u{301}"],["\u{fb}\u{301}","\u{75}\u{302}\u{301}","\u{fb}\u{301}","\u{75}\u{302}\u{301}"],["\u{76}\u{302}\u{301}","\u{76}\u{302}\u{301}","\u{76}\u{302}\u{301}","\u{76}\u{302}\u{301}"],["\u{175}\u{301}","\u{77}\u{302}\u{301}","\u{175}\u{301}","\u{77}\u{302}\u{301}"],["\u{78}\u{302}\u{301}","\u{78}\u{302}\u{301}","\u{78}\u{302}\u{301}","\u{78}\u{302}\u{301}"],["\u{177}\u{301}","\u{79}\u{302}\u{301}","\u{177}\u{301}","\u{79}\u{302}\u{301}"],["\u{1e91}\u{301}","\u{7a}\u{302}\u{301}","\u{1e91}\u{301}","\u{7a}\u{302}\u{301}"]],
[["\u{c2}\u{302}","\u{41}\u{302}\u{302}","\u{c2}\u{302}","\u{41}\u{302}\u{302}"],["\u{42}\u{302}\u{302}","\u{42}\u{302}\u{302}","\u{42}\u{302}\u{302}","\u{42}\u{302}\u{302}"],["\u{108}\u{302}","\u{43}\u{302}\u{302}","\u{108}\u{302}","\u{43}\u{302}\u{302}"],["\u{44}\u{302}\u{302}","\u{44}\u{302}\u{302}","\u{44}\u{302}\u{302}","\u{44}\u{302}\u{302}"],["\u{ca}\u{302}","\u{45}\u{302}\u{302}","\u{ca}\u{302}","\u{45}\u{302}\u{302}"],["\u{46}\u{302}\u{302}","\u{46}\u{302}\u{302}","\u{46}\u{302}\u{302}","\u{46}\u{302}\u{302}"],["\u{11c}\u{302}","\u{47}\u{302}\u{302}","\u{11c}\u{302}","\u{47}\u{302}\u{302}"],["\u{124}\u{302}","\u{48}\u{302}\u{302}","\u{124}\u{302}","\u{48}\u{302}\u{302}"],["\u{ce}\u{302}","\u{49}\u{302}\u{302}","\u{ce}\u{302}","\u{49}\u{302}\u{302}"],["\u{134}\u{302}","\u{4a}\u{302}\u{302}","\u{134}\u{302}","\u{4a}\u{302}\u{302}"],["\u{4b}\u{302}\u{302}","\u{4b}\u{302}\u{302}","\u{4b}\u{302}\u{302}","\u{4b}\u{302}\u{302}"],["\u{4c}\u{302}\u{302}","\u{4c}\u{302}\u{302}","\u{4c}\u{302}\u{302}","\u{4c}\u{302}\u{302}"],["\u{4d}\u{302}\u{302}","\u{4d}\u{302}\u{302}","\u{4d}\u{302}\u{302}","\u{4d}\u{302}\u{302}"],["\u{4e}\u{302}\u{302}","\u{4e}\u{302}\u{302}","\u{4e}\u{302}\u{302}","\u{4e}\u{302}\u{302}"],["\u{d4}\u{302}","\u{4f}\u{302}\u{302}","\u{d4}\u{302}","\u{4f}\u{302}\u{302}"],["\u{50}\u{302}\u{302}","\u{50}\u{302}\u{302}","\u{50}\u{302}\u{302}","\u{50}\u{302}\u{302}"],["\u{51}\u{302}\u{302}","\u{51}\u{302}\u{302}","\u{51}\u{302}\u{302}","\u{51}\u{302}\u{302}"],["\u{52}\u{302}\u{302}","\u{52}\u{302}\u{302}","\u{52}\u{302}\u{302}","\u{52}\u{302}\u{302}"],["\u{15c}\u{302}","\u{53}\u{302}\u{302}","\u{15c}\u{302}","\u{53}\u{302}\u{302}"],["\u{54}\u{302}\u{302}","\u{54}\u{302}\u{302}","\u{54}\u{302}\u{302}","\u{54}\u{302}\u{302}"],["\u{db}\u{302}","\u{55}\u{302}\u{302}","\u{db}\u{302}","\u{55}\u{302}\u{302}"],["\u{56}\u{302}\u{302}","\u{56}\u{302}\u{302}","\u{56}\u{302}\u{302}","\u{56}\u{302}\u{302}"],["\u{174}\u{302}","\u{57}\u{302}\u{302}","\u{174}\u{302}","\u{57}\u{302}\u{302}"],["\u{58}\u{302}\u{302}","\u{58}\u{302}\u{302}","\u{58}\u{302}\u{302}","\u{58}\u{302}\u{302}"],["\u{176}\u{302}","\u{59}\u{302}\u{302}","\u{176}\u{302}","\u{59}\u{302}\u{302}"],["\u{1e90}\u{302}","\u{5a}\u{302}\u{302}","\u{1e90}\u{302}","\u{5a}\u{302}\u{302}"],["\u{5b}\u{302}\u{302}","\u{5b}\u{302}\u{302}","\u{5b}\u{302}\u{302}","\u{5b}\u{302}\u{302}"],["\u{5c}\u{302}\u{302}","\u{5c}\u{302}\u{302}","\u{5c}\u{302}\u{302}","\u{5c}\u{302}\u{302}"],["\u{5d}\u{302}\u{302}","\u{5d}\u{302}\u{302}","\u{5d}\u{302}\u{302}","\u{5d}\u{302}\u{302}"],["\u{5e}\u{302}\u{302}","\u{5e}\u{302}\u{302}","\u{5e}\u{302}\u{302}","\u{5e}\u{302}\u{302}"],["\u{5f}\u{302}\u{302}","\u{5f}\u{302}\u{302}","\u{5f}\u{302}\u{302}","\u{5f}\u{302}\u{302}"],["\u{60}\u{302}\u{302}","\u{60}\u{302}\u{302}","\u{60}\u{302}\u{302}","\u{60}\u{302}\u{302}"],["\u{e2}\u{302}","\u{61}\u{302}\u{302}","\u{e2}\u{302}","\u{61}\u{302}\u{302}"],["\u{62}\u{302}\u{302}","\u{62}\u{302}\u{302}","\u{62}\u{302}\u{302}","\u{62}\u{302}\u{302}"],["\u{109}\u{302}","\u{63}\u{302}\u{302}","\u{109}\u{302}","\u{63}\u{302}\u{302}"],["\u{64}\u{302}\u{302}","\u{64}\u{302}\u{302}","\u{64}\u{302}\u{302}","\u{64}\u{302}\u{302}"],["\u{ea}\u{302}","\u{65}\u{302}\u{302}","\u{ea}\u{302}","\u{65}\u{302}\u{302}"],["\u{66}\u{302}\u{302}","\u{66}\u{302}\u{302}","\u{66}\u{302}\u{302}","\u{66}\u{302}\u{302}"],["\u{11d}\u{302}","\u{67}\u{302}\u{302}","\u{11d}\u{302}","\u{67}\u{302}\u{302}"],["\u{125}\u{302}","\u{68}\u{302}\u{302}","\u{125}\u{302}","\u{68}\u{302}\u{302}"],["\u{ee}\u{302}","\u{69}\u{302}\u{302}","\u{ee}\u{302}","\u{69}\u{302}\u{302}"],["\u{135}\u{302}","\u{6a}\u{302}\u{302}","\u{135}\u{302}","\u{6a}\u{302}\u{302}"],["\u{6b}\u{302}\u{302}","\u{6b}\u{302}\u{302}","\u{6b}\u{302}\u{302}","\u{6b}\u{302}\u{302}"],["\u{6c}\u{302}\u{302}","\u{6c}\u{302}\u{302}","\u{6c}\u{302}\u{302}","\u{6c}\u{302}\u{302}"],["\u{6d}\u{302}\u{302}","\u{6d}\u{302}\u{302}","\u{6d}\u{302}\u{302}","\u{6d}\u{302}\u{302}"],["\u{6e}\u{302}\u{302}","\u{6e}\u{302}\u{302}","\u{6e}\u{302}\u{302}","\u{6e}\u{302}\u{302}"],["\u{f4}\u{302}","\u{6f}\u{302}\u{302}","\u{f4}\u{302}","\u{6f}\u{302}\u{302}"],["\u{70}\u{302}\u{302}","\u{70}\u{302}\u{302}","\u{70}\u{302}\u{302}","\u{70}\u{302}\u{302}"],["\u{71}\u{302}\u{302}","\u{71}\u{302}\u{302}","\u{71}\u{302}\u{302}","\u{71}\u{302}\u{302}"],["\u{72}\u{302}\u{302}","\u{72}\u{302}\u{302}","\u{72}\u{302}\u{302}","\u{72}\u{302}\u{302}"],["\u{15d}\u{302}","\u{73}\u{302}\u{302}","\u{15d}\u{302}","\u{73}\u{302}\u{302}"],["\u{74}\u{302}\u{302}","\u{74}\u{302}\u{302}","\u{74}\u{302}\u{302}","\u{74}\u{302}\u{302}"],["\u{fb}\u{302}","\u{75}\u{302}\u{302}","\u{fb}\u{302}","\u{75}\u{302}\u{302}"],["\u{76}\u{302}\u{302}","\u{76}\u{302}\u{302}","\u{76}\u{302}\u{302}","\u{76}\u{302}\u{302}"],["\u{175}\u{302}","\u{77}\u{302}\u{302}","\u{175}\u{302}","\u{77}\u{302}\u{302}"],["\u{78}\u{302}\u{302}","\u{78}\u{302}\u{302}","\u{78}\u{302}\u{302}","\u{78}\u{302}\u{302}"],["\u{177}\u{302}","\u{79}\u{302}\u{302}","\u{177}\u{302}","\u{79}\u{302}\u{302}"],["\u{1e91}\u{302}","\u{7a}\u{302}\u{302}","\u{1e91}\u{302}","\u{7a}\u{302}\u{302}"]],
[["\u{1eaa}","\u{41}\u{302}\u{303}","\u{1eaa}","\u{41}\u{302}\u{303}"],["\u{42}\u{302}\u{303}","\u{42}\u{302}\u{303}","\u{42}\u{302}\u{303}","\u{42}\u{302}\u{303}"],["\u{108}\u{303}","\u{43}\u{302}\u{303}","\u{108}\u{303}","\u{43}\u{302}\u{303}"],["\u{44}\u{302}\u{303}","\u{44}\u{302}\u{303}","\u{44}\u{302}\u{303}","\u{44}\u{302}\u{303}"],["\u{1ec4}","\u{45}\u{302}\u{303}","\u{1ec4}","\u{45}\u{302}\u{303}"],["\u{46}\u{302}\u{303}","\u{46}\u{302}\u{303}","\u{46}\u{302}\u{303}","\u{46}\u{302}\u{303}"],["\u{11c}\u{303}","\u{47}\u{302}\u{303}","\u{11c}\u{303}","\u{47}\u{302}\u{303}"],["\u{124}\u{303}","\u{48}\u{302}\u{303}","\u{124}\u{303}","\u{48}\u{302}\u{303}"],["\u{ce}\u{303}","\u{49}\u{302}\u{303}","\u{ce}\u{303}","\u{49}\u{302}\u{303}"],["\u{134}\u{303}","\u{4a}\u{302}\u{303}","\u{134}\u{303}","\u{4a}\u{302}\u{303}"],["\u{4b}\u{302}\u{303}","\u{4b}\u{302}\u{303}","\u{4b}\u{302}\u{303}","\u{4b}\u{302}\u{303}"],["\u{4c}\u{302}\u{303}","\u{4c}\u{302}\u{303}","\u{4c}\u{302}\u{303}","\u{4c}\u{302}\u{303}"],["\u{4d}\u{302}\u{303}","\u{4d}\u{302}\u{303}","\u{4d}\u{302}\u{303}","\u{4d}\u{302}\u{303}"],["\u{4e}\u{302}\u{303}","\u{4e}\u{302}\u{303}","\u{4e}\u{302}\u{303}","\u{4e}\u{302}\u{303}"],["\u{1ed6}","\u{4f}\u{302}\u{303}","\u{1ed6}","\u{4f}\u{302}\u{303}"],["\u{50}\u{302}\u{303}","\u{50}\u{302}\u{303}","\u{50}\u{302}\u{303}","\u{50}\u{302}\u{303}"],["\u{51}\u{302}\u{303}","\u{51}\u{302}\u{303}","\u{51}\u{302}\u{303}","\u{51}\u{302}\u{303}"],["\u{52}\u{302}\u{303}","\u{52}\u{302}\u{303}","\u{52}\u{302}\u{303}","\u{52}\u{302}\u{303}"],["\u{15c}\u{303}","\u{53}\u{302}\u{303}","\u{15c}\u{303}","\u{53}\u{302}\u{303}"],["\u{54}\u{302}\u{303}","\u{54}\u{302}\u{303}","\u{54}\u{302}\u{303}","\u{54}\u{302}\u{303}"],["\u{db}\u{303}","\u{55}\u{302}\u{303}","\u{db}\u{303}","\u{55}\u{302}\u{303}"],["\u{56}\u{302}\u{303}","\u{56}\u{302}\u{303}","\u{56}\u{302}\u{303}","\u{56}\u{302}\u{303}"],["\u{174}\u{303}","\u{57}\u{302}\u{303}","\u{174}\u{303}","\u{57}\u{302}\u{303}"],["\u{58}\u{302}\u{303}","\u{58}\u{302}\u{303}","\u{58}\u{302}\u{303}","\u{58}\u{302}\u{303}"],["\u{176}\u{303}","\u{59}\u{302}\u{303}","\u{176}\u{303}","\u{59}\u{302}\u{303}"],["\u{1e90}\u{303}","\u{5a}\u{302}\u{303}","\u{1e90}\u{303}","\u{5a}\u{302}\u{303}"],["\u{5b}\u{302}\u{303}","\u{5b}\u{302}\u{303}","\u{5b}\u{302}\u{303}","\u{5b}\u{302}\u{303}"],["\u{5c}\u{302}\u{303}","\u{5c}\u{302}\u{303}","\u{5c}\u{302}\u{303}","\u{5c}\u{302}\u{303}"],["\u{5d}\u{302}\u{303}","\u{5d}\u{302}\u{303}","\u{5d}\u{302}\u{303}","\u{5d}\u{302}\u{303}"],["\u{5e}\u{302}\u{303}","\u{5e}\u{302}\u{303}","\u{5e}\u{302}\u{303}","\u{5e}\u{302}\u{303}"],["\u{5f}\u{302}\u{303}","\u{5f}\u{302}\u{303}","\u{5f}\u{302}\u{303}","\u{5f}\u{302}\u{303}"],["\u{60}\u{302}\u{303}","\u{60}\u{302}\u{303}","\u{60}\u{302}\u{303}","\u{60}\u{302}\u{303}"],["\u{1eab}","\u{61}\u{302}\u{303}","\u{1eab}","\u{61}\u{302}\u{303}"],["\u{62}\u{302}\u{303}","\u{62}\u{302}\u{303}","\u{62}\u{302}\u{303}","\u{62}\u{302}\u{303}"],["\u{109}\u{303}","\u{63}\u{302}\u{303}","\u{109}\u{303}","\u{63}\u{302}\u{303}"],["\u{64}\u{302}\u{303}","\u{64}\u{302}\u{303}","\u{64}\u{302}\u{303}","\u{64}\u{302}\u{303}"],["\u{1ec5}","\u{65}\u{302}\u{303}","\u{1ec5}","\u{65}\u{302}\u{303}"],["\u{66}\u{302}\u{303}","\u{66}\u{302}\u{303}","\u{66}\u{302}\u{303}","\u{66}\u{302}\u{303}"],["\u{11d}\u{303}","\u{67}\u{302}\u{303}","\u{11d}\u{303}","\u{67}\u{302}\u{303}"],["\u{125}\u{303}","\u{68}\u{302}\u{303}","\u{125}\u{303}","\u{68}\u{302}\u{303}"],["\u{ee}\u{303}","\u{69}\u{302}\u{303}","\u{ee}\u{303}","\u{69}\u{302}\u{303}"],["\u{135}\u{303}","\u{6a}\u{302}\u{303}","\u{135}\u{303}","\u{6a}\u{302}\u{303}"],["\u{6b}\u{302}\u{303}","\u{6b}\u{302}\u{303}","\u{6b}\u{302}\u{303}","\u{6b}\u{302}\u{303}"],["\u{6c}\u{302}\u{303}","\u{6c}\u{302}\u{303}","\u{6c}\u{302}\u{303}","\u{6c}\u{302}\u{303}"],["\u{6d}\u{302}\u{303}","\u{6d}\u{302}\u{303}","\u{6d}\u{302}\u{303}","\u{6d}\u{302}\u{303}"],["\u{6e}\u{302}\u{303}","\u{6e}\u{302}\u{303}","\u{6e}\u{302}\u{303}","\u{6e}\u{302}\u{303}"],["\u{1ed7}","\u{6f}\u{302}\u{303}","\u{1ed7}","\u{6f}\u{302}\u{303}"],["\u{70}\u{302}\u{303}","\u{70}\u{302}\u{303}","\u{70}\u{302}\u{303}","\u{70}\u{302}\u{303}"],["\u{71}\u{302}\u{303}","\u{71}\u{302}\u{303}","\u{71}\u{302}\u{303}","\u{71}\u{302}\u{303}"],["\u{72}\u{302}\u{303}","\u{72}\u{302}\u{303}","\u{72}\u{302}\u{303}","\u{72}\u{302}\u{303}"],["\u{15d}\u{303}","\u{73}\u{302}\u{303}","\u{15d}\u{303}","\u{73}\u{302}\u{303}"],["\u{74}\u{302}\u{303}","\u{74}\u{302}\u{303}","\u{74}\u{302}\u{303}","\u{74}\u{302}\u{303}"],["\u{fb}\u{303}","\u{75}\u{302}\u{303}","\u{fb}\u{303}","\u{75}\u{302}\u{303}"],["\u{76}\u{302}\u{303}","\u{76}\u{302}\u{303}","\u{76}\u{302}\u{303}","\u{76}\u{302}\u{303}"],["\u{175}\u{303}","\u{77}\u{302}\u{303}","\u{175}\u{303}","\u{77}\u{302}\u{303}"],["\u{78}\u{302}\u{303}","\u{78}\u{302}\u{303}","\u{78}\u{302}\u{303}","\u{78}\u{302}\u{303}"],["\u{177}\u{303}","\u{79}\u{302}\u{303}","\u{177}\u{303}","\u{79}\u{302}\u{303}"],["\u{1e91}\u{303}","\u{7a}\u{302}\u{303}","\u{1e91}\u{303}","\u{7a}\u{302}\u{303}"]],
[["\u{c2}\u{308}","\u{41}\u{302}\u{308}","\u{c2}\u{308}","\u{41}\u{302}\u{308}"],["\u{42}\u{302}\u{308}","\u{42}\u{302}\u{308}","\u{42}\u{302}\u{308}","\u{42}\u{302}\u{308}"],["\u{108}\u{308}","\u{43}\u{302}\u{308}","\u{108}\u{308}","\u{43}\u{302}\u{308}"],["\u{44}\u{302}\u{308}","\u{44}\u{302}\u{308}","\u{44}\u{302}\u{308}","\u{44}\u{302}\u{308}"],["\u{ca}\u{308}","\u{45}\u{302}\u{308}","\u{ca}\u{308}","\u{45}\u{302}\u{308}"],["\u{46}\u{302}\u{308}","\u{46}\u{302}\u{308}","\u{46}\u{302}\u{308}","\u{46}\u{302}\u{308}"],["\u{11c}\u{308}","\u{47}\u{302}\u{308}","\u{11c}\u{308}","\u{47}\u{302}\u{308}"],["\u{124}\u{308}","\u{48}\u{302}\u{308}","\u{124}\u{308}","\u{48}\u{302}\u{308}"],["\u{ce}\u{308}","\u{49}\u{302}\u{308}","\u{ce}\u{308}","\u{49}\u{302}\u{308}"],["\u{134}\u{308}","\u{4a}\u{302}\u{308}","\u{134}\u{308}","\u{4a}\u{302}\u{308}"],["\u{4b}\u{302}\u{308}","\u{4b}\u{302}\u{308}","\u{4b}\u{302}\u{308}","\u{4b}\u{302}\u{308}"],["\u{4c}\u{302}\u{308}","\u{4c}\u{302}\u{308}","\u{4c}\u{302}\u{308}","\u{4c}\u{302}\u{308}"],["\u{4d}\u{302}\u{308}","\u{4d}\u{302}\u{308}","\u{4d}\u{302}\u{308}","\u{4d}\u{302}\u{308}"],["\u{4e}\u{302}\u{308}","\u{4e}\u{302}\u{308}","\u{4e}\u{302}\u{308}","\u{4e}\u{302}\u{308}"],["\u{d4}\u{308}","\u{4f}\u{302}\u{308}","\u{d4}\u{308}","\u{4f}\u{302}\u{308}"],["\u{50}\u{302}\u{308}","\u{50}\u{302}\u{308}","\u{50}\u{302}\u{308}","\u{50}\u{302}\u{308}"],["\u{51}\u{302}\u{308}","\u{51}\u{302}\u{308}","\u{51}\u{302}\u{308}","\u{51}\u{302}\u{308}"],["\u{52}\u{302}\u{308}","\u{52}\u{302}\u{308}","\u{52}\u{302}\u{308}","\u{52}\u{302}\u{308}"],["\u{15c}\u{308}","\u{53}\u{302}\u{308}","\u{15c}\u{308}","\u{53}\u{302}\u{308}"],["\u{54}\u{302}\u{308}","\u{54}\u{302}\u{308}","\u{54}\u{302}\u{308}","\u{54}\u{302}\u{308}"],["\u{db}\u{308}","\u{55}\u{302}\u{308}","\u{db}\u{308}","\u{55}\u{302}\u{308}"],["\u{56}\u{302}\u{308}","\u{56}\u{302}\u{308}","\u{56}\u{302}\u{308}","\u{56}\u{302}\u{308}"],["\u{174}\u{308}","\u{57}\u{302}\u{308}","\u{174}\u{308}","\u{57}\u{302}\u{308}"],["\u{58}\u{302}\u{308}","\u{58}\u{302}\u{308}","\u{58}\u{302}\u{308}","\u{58}\u{302}\u{308}"],["\u{176}\u{308}","\u{59}\u{302}\u{308}","\u{176}\u{308}","\u{59}\u{302}\u{308}"],["\u{1e90}\u{308}","\u{5a}\u{302}\u{308}","\u{1e90}\u{308}","\u{5a}\u{302}\u{308}"],["\u{5b}\u{302}\u{308}","\u{5b}\u{302}\u{308}","\u{5b}\u{302}\u{308}","\u{5b}\u{302}\u{308}"],["\u{5c}\u{302}\u{308}","\u{5c}\u{302}\u{308}","\u{5c}\u{302}\u{308}","\u{5c}\u{302}\u{308}"],["\u{5d}\u{302}\u{308}","\u{5d}\u{302}\u{308}","\u{5d}\u{302}\u{308}","\u{5d}\u{302}\u{308}"],["\u{5e}\u{302}\u{308}","\u{5e}\u{302}\u{308}","\u{5e}\u{302}\u{308}","\u{5e}\u{302}\u{308}"],["\u{5f}\u{302}\u{308}","\u{5f}\u{302}\u{308}","\u{5f}\u{302}\u{308}","\u{5f}\u{302}\u{308}"],["\u{60}\u{302}\u{308}","\u{60}\u{302}\u{308}","\u{60}\u{302}\u{308}","\u{60}\u{302}\u{308}"],["\u{e2}\u{308}","\u{61}\u{302}\u{308}","\u{e2}\u{308}","\u{61}\u{302}\u{308}"],["\u{62}\u{302}\u{308}","\u{62}\u{302}\u{308}","\u{62}\u{302}\u{308}","\u{62}\u{302}\u{308}"],["\u{109}\u{308}","\u{63}\u{302}\u{308}","\u{109}\u{308}","\u{63}\u{302}\u{308}"],["\u{64}\u{302}\u{308}","\u{64}\u{302}\u{308}","\u{64}\u{302}\u{308}","\u{64}\u{302}\u{308}"],["\u{ea}\u{308}","\u{65}\u{302}\u{308}","\u{ea}\u{308}","\u{65}\u{302}\u{308}"],["\u{66}\u{302}\u{308}","\u{66}\u{302}\u{308}","\u{66}\u{302}\u{308}","\u{66}\u{302}\u{308}"],["\u{11d}\u{308}","\u{67}\u{302}\u{308}","\u{11d}\u{308}","\u{67}\u{302}\u{308}"],["\u{125}\u{308}","\u{68}\u{302}\u{308}","\u{125}\u{308}","\u{68}\u{302}\u{308}"],["\u{ee}\u{308}","\u{69}\u{302}\u{308}","\u{ee}\u{308}","\u{69}\u{302}\u{308}"],["\u{135}\u{308}","\u{6a}\u{302}\u{308}","\u{135}\u{308}","\u{6a}\u{302}\u{308}"],["\u{6b}\u{302}\u{308}","\u{6b}\u{302}\u{308}","\u{6b}\u{302}\u{308}","\u{6b}\u{302}\u{308}"],["\u{6c}\u{302}\u{308}","\u{6c}\u{302}\u{308}","\u{6c}\u{302}\u{308}","\u{6c}\u{302}\u{308}"],["\u{6d}\u{302}\u{308}","\u{6d}\u{302}\u{308}","\u{6d}\u{302}\u{308}","\u{6d}\u{302}\u{308}"],["\u{6e}\u{302}\u{308}","\u{6e}\u{302}\u{308}","\u{6e}\u{302}\u{308}","\u{6e}\u{302}\u{308}"],["\u{f4}\u{308}","\u{6f}\u{302}\u{308}","\u{f4}\u{308}","\u{6f}\u{302}\u{308}"],["\u{70}\u{302}\u{308}","\u{70}\u{302}\u{308}","\u{70}\u{302}\u{308}","\u{70}\u{302}\u{308}"],["\u{71}\u{302}\u{308}","\u{71}\u{302}\u{308}","\u{71}\u{302}\u{308}","\u{71}\u{302}\u{308}"],["\u{72}\u{302}\u{308}","\u{72}\u{302}\u{308}","\u{72}\u{302}\u{308}","\u{72}\u{302}\u{308}"],["\u{15d}\u{308}","\u{73}\u{302}\u{308}","\u{15d}\u{308}","\u{73}\u{302}\u{308}"],["\u{74}\u{302}\u{308}","\u{74}\u{302}\u{308}","\u{74}\u{302}\u{308}","\u{74}\u{302}\u{308}"],["\u{fb}\u{308}","\u{75}\u{302}\u{308}","\u{fb}\u{308}","\u{75}\u{302}\u{308}"],["\u{76}\u{302}\u{308}","\u{76}\u{302}\u{308}","\u{76}\u{302}\u{308}","\u{76}\u{302}\u{308}"],["\u{175}\u{308}","\u{77}\u{302}\u{308}","\u{175}\u{308}","\u{77}\u{302}\u{308}"],["\u{78}\u{302}\u{308}","\u{78}\u{302}\u{308}","\u{78}\u{302}\u{308}","\u{78}\u{302}\u{308}"],["\u{177}\u{308}","\u{79}\u{302}\u{308}","\u{177}\u{308}","\u{79}\u{302}\u{308}"],["\u{1e91}\u{308}","\u{7a}\u{302}\u{308}","\u{1e91}\u{308}","\u{7a}\u{302}\u{308}"]],
[["\u{1eac}","\u{41}\u{323}\u{302}","\u{1eac}","\u{41}\u{323}\u{302}"],["\u{1e04}\u{302}","\u{42}\u{323}\u{302}","\u{1e04}\u{302}","\u{42}\u{323}\u{302}"],["\u{108}\u{323}","\u{43}\u{323}\u{302}","\u{108}\u{323}","\u{43}\u{323}\u{302}"],["\u{1e0c}\u{302}","\u{44}\u{323}\u{302}","\u{1e0c}\u{302}","\u{44}\u{323}\u{302}"],["\u{1ec6}","\u{45}\u{323}\u{302}","\u{1ec6}","\u{45}\u{323}\u{302}"],["\u{46}\u{323}\u{302}","\u{46}\u{323}\u{302}","\u{46}\u{323}\u{302}","\u{46}\u{323}\u{302}"],["\u{11c}\u{323}","\u{47}\u{323}\u{302}","\u{11c}\u{323}","\u{47}\u{323}\u{302}"],["\u{1e24}\u{302}","\u{48}\u{323}\u{302}","\u{1e24}\u{302}","\u{48}\u{323}\u{302}"],["\u{1eca}\u{302}","\u{49}\u{323}\u{302}","\u{1eca}\u{302}","\u{49}\u{323}\u{302}"],["\u{134}\u{323}","\u{4a}\u{323}\u{302}","\u{134}\u{323}","\u{4a}\u{323}\u{302}"],["\u{1e32}\u{302}","\u{4b}\u{323}\u{302}","\u{1e32}\u{302}","\u{4b}\u{323}\u{302}"],["\u{1e36}\u{302}","\u{4c}\u{323}\u{302}","\u{1e36}\u{302}","\u{4c}\u{323}\u{302}"],["\u{1e42}\u{302}","\u{4d}\u{323}\u{302}","\u{1e42}\u{302}","\u{4d}\u{323}\u{302}"],["\u{1e46}\u{302}","\u{4e}\u{323}\u{302}","\u{1e46}\u{302}","\u{4e}\u{323}\u{302}"],["\u{1ed8}","\u{4f}\u{323}\u{302}","\u{1ed8}","\u{4f}\u{323}\u{302}"],["\u{50}\u{323}\u{302}","\u{50}\u{323}\u{302}","\u{50}\u{323}\u{302}","\u{50}\u{323}\u{302}"],["\u{51}\u{323}\u{302}","\u{51}\u{323}\u{302}","\u{51}\u{323}\u{302}","\u{51}\u{323}\u{302}"],["\u{1e5a}\u{302}","\u{52}\u{323}\u{302}","\u{1e5a}\u{302}","\u{52}\u{323}\u{302}"],["\u{1e62}\u{302}","\u{53}\u{323}\u{302}","\u{1e62}\u{302}","\u{53}\u{323}\u{302}"],["\u{1e6c}\u{302}","\u{54}\u{323}\u{302}","\u{1e6c}\u{302}","\u{54}\u{323}\u{302}"],["\u{1ee4}\u{302}","\u{55}\u{323}\u{302}","\u{1ee4}\u{302}","\u{55}\u{323}\u{302}"],["\u{1e7e}\u{302}","\u{56}\u{323}\u{302}","\u{1e7e}\u{302}","\u{56}\u{323}\u{302}"],["\u{1e88}\u{302}","\u{57}\u{323}\u{302}","\u{1e88}\u{302}","\u{57}\u{323}\u{302}"],["\u{58}\u{323}\u{302}","\u{58}\u{323}\u{302}","\u{58}\u{323}\u{302}","\u{58}\u{323}\u{302}"],["\u{1ef4}\u{302}","\u{59}\u{323}\u{302}","\u{1ef4}\u{302}","\u{59}\u{323}\u{302}"],["\u{1e92}\u{302}","\u{5a}\u{323}\u{302}","\u{1e92}\u{302}","\u{5a}\u{323}\u{302}"],["\u{5b}\u{323}\u{302}","\u{5b}\u{323}\u{302}","\u{5b}\u{323}\u{302}","\u{5b}\u{323}\u{302}"],["\u{5c}\u{323}\u{302}","\u{5c}\u{323}\u{302}","\u{5c}\u{323}\u{302}","\u{5c}\u{323}\u{302}"],["\u{5d}\u{323}\u{302}","\u{5d}\u{323}\u{302}","\u{5d}\u{323}\u{302}","\u{5d}\u{323}\u{302}"],["\u{5e}\u{323}\u{302}","\u{5e}\u{323}\u{302}","\u{5e}\u{323}\u{302}","\u{5e}\u{323}\u{302}"],["\u{5f}\u{323}\u{302}","\u{5f}\u{323}\u{302}","\u{5f}\u{323}\u{302}","\u{5f}\u{323}\u{302}"],["\u{60}\u{323}\u{302}","\u{60}\u{323}\u{302}","\u{60}\u{323}\u{302}","\u{60}\u{323}\u{302}"],["\u{1ead}","\u{61}\u{323}\u{302}","\u{1ead}","\u{61}\u{323}\u{302}"],["\u{1e05}\u{302}","\u{62}\u{323}\u{302}","\u{1e05}\u{302}","\u{62}\u{323}\u{302}"],["\u{109}\u{323}","\u{63}\u{323}\u{302}","\u{109}\u{323}","\u{63}\u{323}\u{302}"],["\u{1e0d}\u{302}","\u{64}\u{323}\u{302}","\u{1e0d}\u{302}","\u{64}\u{323}\u{302}"],["\u{1ec7}","\u{65}\u{323}\u{302}","\u{1ec7}","\u{65}\u{323}\u{302}"],["\u{66}\u{323}\u{302}","\u{66}\u{323}\u{302}","\u{66}\u{323}\u{302}","\u{66}\u{323}\u{302}"],["\u{11d}\u{323}","\u{67}\u{323}\u{302}","\u{11d}\u{323}","\u{67}\u{323}\u{302}"],["\u{1e25}\u{302}","\u{68}\u{323}\u{302}","\u{1e25}\u{302}","\u{68}\u{323}\u{302}"],["\u{1ecb}\u{302}","\u{69}\u{323}\u{302}","\u{1ecb}\u{302}","\u{69}\u{323}\u{302}"],["\u{135}\u{323}","\u{6a}\u{323}\u{302}","\u{135}\u{323}","\u{6a}\u{323}\u{302}"],["\u{1e33}\u{302}","\u{6b}\u{323}\u{302}","\u{1e33}\u{302}","\u{6b}\u{323}\u{302}"],["\u{1e37}\u{302}","\u{6c}\u{323}\u{302}","\u{1e37}\u{302}","\u{6c}\u{323}\u{302}"],["\u{1e43}\u{302}","\u{6d}\u{323}\u{302}","\u{1e43}\u{302}","\u{6d}\u{323}\u{302}"],["\u{1e47}\u{302}","\u{6e}\u{323}\u{302}","\u{1e47}\u{302}","\u{6e}\u{323}\u{302}"],["\u{1ed9}","\u{6f}\u{323}\u{302}","\u{1ed9}","\u{6f}\u{323}\u{302}"],["\u{70}\u{323}\u{302}","\u{70}\u{323}\u{302}","\u{70}\u{323}\u{302}","\u{70}\u{323}\u{302}"],["\u{71}\u{323}\u{302}","\u{71}\u{323}\u{302}","\u{71}\u{323}\u{302}","\u{71}\u{323}\u{302}"],["\u{1e5b}\u{302}","\u{72}\u{323}\u{302}","\u{1e5b}\u{302}","\u{72}\u{323}\u{302}"],["\u{1e63}\u{302}","\u{73}\u{323}\u{302}","\u{1e63}\u{302}","\u{73}\u{323}\u{302}"],["\u{1e6d}\u{302}","\u{74}\u{323}\u{302}","\u{1e6d}\u{302}","\u{74}\u{323}\u{302}"],["\u{1ee5}\u{302}","\u{75}\u{323}\u{302}","\u{1ee5}\u{302}","\u{75}\u{323}\u{302}"],["\u{1e7f}\u{302}","\u{76}\u{323}\u{302}","\u{1e7f}\u{302}","\u{76}\u{323}\u{302}"],["\u{1e89}\u{302}","\u{77}\u{323}\u{302}","\u{1e89}\u{302}","\u{77}\u{323}\u{302}"],["\u{78}\u{323}\u{302}","\u{78}\u{323}\u{302}","\u{78}\u{323}\u{302}","\u{78}\u{323}\u{302}"],["\u{1ef5}\u{302}","\u{79}\u{323}\u{302}","\u{1ef5}\u{302}","\u{79}\u{323}\u{302}"],["\u{1e93}\u{302}","\u{7a}\u{323}\u{302}","\u{1e93}\u{302}","\u{7a}\u{323}\u{302}"]],
[["\u{c2}\u{327}","\u{41}\u{327}\u{302}","\u{c2}\u{327}","\u{41}\u{327}\u{302}"],["\u{42}\u{327}\u{302}","\u{42}\u{327}\u{302}","\u{42}\u{327}\u{302}","\u{42}\u{327}\u{302}"],["\u{c7}\u{302}","\u{43}\u{327}\u{302}","\u{c7}\u{302}","\u{43}\u{327}\u{302}"],["\u{1e10}\u{302}","\u{44}\u{327}\u{302}","\u{1e10}\u{302}","\u{44}\u{327}\u{302}"],["\u{228}\u{302}","\u{45}\u{327}\u{302}","\u{228}\u{302}","\u{45}\u{327}\u{302}"],["\u{46}\u{327}\u{302}","\u{46}\u{327}\u{302}","\u{46}\u{327}\u{302}","\u{46}\u{327}\u{302}"],["\u{122}\u{302}","\u{47}\u{327}\u{302}","\u{122}\u{302}","\u{47}\u{327}\u{302}"],["\u{1e28}\u{302}","\u{48}\u{327}\u{302}","\u{1e28}\u{302}","\u{48}\u{327}\u{302}"],["\u{ce}\u{327}","\u{49}\u{327}\u{302}","\u{ce}\u{327}","\u{49}\u{327}\u{302}"],["\u{134}\u{327}","\u{4a}\u{327}\u{302}","\u{134}\u{327}","\u{4a}\u{327}\u{302}"],["\u{136}\u{302}","\u{4b}\u{327}\u{302}","\u{136}\u{302}","\u{4b}\u{327}\u{302}"],["\u{13b}\u{302}","\u{4c}\u{327}\u{302}","\u{13b}\u{302}","\u{4c}\u{327}\u{302}"],["\u{4d}\u{327}\u{302}","\u{4d}\u{327}\u{302}","\u{4d}\u{327}\u{302}","\u{4d}\u{327}\u{302}"],["\u{145}\u{302}","\u{4e}\u{327}\u{302}","\u{145}\u{302}","\u{4e}\u{327}\u{302}"],["\u{d4}\u{327}","\u{4f}\u{327}\u{302}","\u{d4}\u{327}","\u{4f}\u{327}\u{302}"],["\u{50}\u{327}\u{302}","\u{50}\u{327}\u{302}","\u{50}\u{327}\u{302}","\u{50}\u{327}\u{302}"],["\u{51}\u{327}\u{302}","\u{51}\u{327}\u{302}","\u{51}\u{327}\u{302}","\u{51}\u{327}\u{302}"],["\u{156}\u{302}","\u{52}\u{327}\u{302}","\u{156}\u{302}","\u{52}\u{327}\u{302}"],["\u{15e}\u{302}","\u{53}\u{327}\u{302}","\u{15e}\u{302}","\u{53}\u{327}\u{302}"],["\u{162}\u{302}","\u{54}\u{327}\u{302}","\u{162}\u{302}","\u{54}\u{327}\u{302}"],["\u{db}\u{327}","\u{55}\u{327}\u{302}","\u{db}\u{327}","\u{55}\u{327}\u{302}"],["\u{56}\u{327}\u{302}","\u{56}\u{327}\u{302}","\u{56}\u{327}\u{302}","\u{56}\u{327}\u{302}"],["\u{174}\u{327}","\u{57}\u{327}\u{302}","\u{174}\u{327}","\u{57}\u{327}\u{302}"],["\u{58}\u{327}\u{302}","\u{58}\u{327}\u{302}","\u{58}\u{327}\u{302}","\u{58}\u{327}\u{302}"],["\u{176}\u{327}","\u{59}\u{327}\u{302}","\u{176}\u{327}","\u{59}\u{327}\u{302}"],["\u{1e90}\u{327}","\u{5a}\u{327}\u{302}","\u{1e90}\u{327}","\u{5a}\u{327}\u{302}"],["\u{5b}\u{327}\u{302}","\u{5b}\u{327}\u{302}","\u{5b}\u{327}\u{302}","\u{5b}\u{327}\u{302}"],["\u{5c}\u{327}\u{302}","\u{5c}\u{327}\u{302}","\u{5c}\u{327}\u{302}","\u{5c}\u{327}\u{302}"],["\u{5d}\u{327}\u{302}","\u{5d}\u{327}\u{302}","\u{5d}\u{327}\u{302}","\u{5d}\u{327}\u{302}"],["\u{5e}\u{327}\u{302}","\u{5e}\u{327}\u{302}","\u{5e}\u{327}\u{302}","\u{5e}\u{327}\u{302}"],["\u{5f}\u{327}\u{302}","\u{5f}\u{327}\u{302}","\u{5f}\u{327}\u{302}","\u{5f}\u{327}\u{302}"],["\u{60}\u{327}\u{302}","\u{60}\u{327}\u{302}","\u{60}\u{327}\u{302}","\u{60}\u{327}\u{302}"],["\u{e2}\u{327}","\u{61}\u{327}\u{302}","\u{e2}\u{327}","\u{61}\u{327}\u{302}"],["\u{62}\u{327}\u{302}","\u{62}\u{327}\u{302}","\u{62}\u{327}\u{302}","\u{62}\u{327}\u{302}"],["\u{e7}\u{302}","\u{63}\u{327}\u{302}","\u{e7}\u{302}","\u{63}\u{327}\u{302}"],["\u{1e11}\u{302}","\u{64}\u{327}\u{302}","\u{1e11}\u{302}","\u{64}\u{327}\u{302}"],["\u{229}\u{302}","\u{65}\u{327}\u{302}","\u{229}\u{302}","\u{65}\u{327}\u{302}"],["\u{66}\u{327}\u{302}","\u{66}\u{327}\u{302}","\u{66}\u{327}\u{302}","\u{66}\u{327}\u{302}"],["\u{123}\u{302}","\u{67}\u{327}\u{302}","\u{123}\u{302}","\u{67}\u{327}\u{302}"],["\u{1e29}\u{302}","\u{68}\u{327}\u{302}","\u{1e29}\u{302}","\u{68}\u{327}\u{302}"],["\u{ee}\u{327}","\u{69}\u{327}\u{302}","\u{ee}\u{327}","\u{69}\u{327}\u{302}"],["\u{135}\u{327}","\u{6a}\u{327}\u{302}","\u{135}\u{327}","\u{6a}\u{327}\u{302}"],["\u{137}\u{302}","\u{6b}\u{327}\u{302}","\u{137}\u{302}","\u{6b}\u{327}\u{302}"],["\u{13c}\u{302}","\u{6c}\u{327}\u{302}","\u{13c}\u{302}","\u{6c}\u{327}\u{302}"],["\u{6d}\u{327}\u{302}","\u{6d}\u{327}\u{302}","\u{6d}\u{327}\u{302}","\u{6d}\u{327}\u{302}"],["\u{146}\u{302}","\u{6e}\u{327}\u{302}","\u{146}\u{302}","\u{6e}\u{327}\u{302}"],["\u{f4}\u{327}","\u{6f}\u{327}\u{302}","\u{f4}\u{327}","\u{6f}\u{327}\u{302}"],["\u{70}\u{327}\u{302}","\u{70}\u{327}\u{302}","\u{70}\u{327}\u{302}","\u{70}\u{327}\u{302}"],["\u{71}\u{327}\u{302}","\u{71}\u{327}\u{302}","\u{71}\u{327}\u{302}","\u{71}\u{327}\u{302}"],["\u{157}\u{302}","\u{72}\u{327}\u{302}","\u{157}\u{302}","\u{72}\u{327}\u{302}"],["\u{15f}\u{302}","\u{73}\u{327}\u{302}","\u{15f}\u{302}","\u{73}\u{327}\u{302}"],["\u{163}\u{302}","\u{74}\u{327}\u{302}","\u{163}\u{302}","\u{74}\u{327}\u{302}"],["\u{fb}\u{327}","\u{75}\u{327}\u{302}","\u{fb}\u{327}","\u{75}\u{327}\u{302}"],["\u{76}\u{327}\u{302}","\u{76}\u{327}\u{302}","\u{76}\u{327}\u{302}","\u{76}\u{327}\u{302}"],["\u{175}\u{327}","\u{77}\u{327}\u{302}","\u{175}\u{327}","\u{77}\u{327}\u{302}"],["\u{78}\u{327}\u{302}","\u{78}\u{327}\u{302}","\u{78}\u{327}\u{302}","\u{78}\u{327}\u{302}"],["\u{177}\u{327}","\u{79}\u{327}\u{302}","\u{177}\u{327}","\u{79}\u{327}\u{302}"],["\u{1e91}\u{327}","\u{7a}\u{327}\u{302}","\u{1e91}\u{327}","\u{7a}\u{327}\u{302}"]],
[["\u{c2}\u{31b}","\u{41}\u{31b}\u{302}","\u{c2}\u{31b}","\u{41}\u{31b}\u{302}"],["\u{42}\u{31b}\u{302}","\u{42}\u{31b}\u{302}","\u{42}\u{31b}\u{302}","\u{42}\u{31b}\u{302}"],["\u{108}\u{31b}","\u{43}\u{31b}\u{302}","\u{108}\u{31b}","\u{43}\u{31b}\u{302}"],["\u{44}\u{31b}\u{302}","\u{44}\u{31b}\u{302}","\u{44}\u{31b}\u{302}","\u{44}\u{31b}\u{302}"],["\u{ca}\u{31b}","\u{45}\u{31b}\u{302}","\u{ca}\u{31b}","\u{45}\u{31b}\u{302}"],["\u{46}\u{31b}\u{302}","\u{46}\u{31b}\u{302}","\u{46}\u{31b}\u{302}","\u{46}\u{31b}\u{302}"],["\u{11c}\u{31b}","\u{47}\u{31b}\u{302}","\u{11c}\u{31b}","\u{47}\u{31b}\u{302}"],["\u{124}\u{31b}","\u{48}\u{31b}\u{302}","\u{124}\u{31b}","\u{48}\u{31b}\u{302}"],["\u{ce}\u{31b}","\u{49}\u{31b}\u{302}","\u{ce}\u{31b}","\u{49}\u{31b}\u{302}"],["\u{134}\u{31b}","\u{4a}\u{31b}\u{302}","\u{134}\u{31b}","\u{4a}\u{31b}\u{302}"],["\u{4b}\u{31b}\u{302}","\u{4b}\u{31b}\u{302}","\u{4b}\u{31b}\u{302}","\u{4b}\u{31b}\u{302}"],["\u{4c}\u{31b}\u{302}","\u{4c}\u{31b}\u{302}","\u{4c}\u{31b}\u{302}","\u{4c}\u{31b}\u{302}"],["\u{4d}\u{31b}\u{302}","\u{4d}\u{31b}\u{302}","\u{4d}\u{31b}\u{302}","\u{4d}\u{31b}\u{302}"],["\u{4e}\u{31b}\u{302}","\u{4e}\u{31b}\u{302}","\u{4e}\u{31b}\u{302}","\u{4e}\u{31b}\u{302}"],["\u{1a0}\u{302}","\u{4f}\u{31b}\u{302}","\u{1a0}\u{302}","\u{4f}\u{31b}\u{302}"],["\u{50}\u{31b}\u{302}","\u{50}\u{31b}\u{302}","\u{50}\u{31b}\u{302}","\u{50}\u{31b}\u{302}"],["\u{51}\u{31b}\u{302}","\u{51}\u{31b}\u{302}","\u{51}\u{31b}\u{302}","\u{51}\u{31b}\u{302}"],["\u{52}\u{31b}\u{302}","\u{52}\u{31b}\u{302}","\u{52}\u{31b}\u{302}","\u{52}\u{31b}\u{302}"],["\u{15c}\u{31b}","\u{53}\u{31b}\u{302}","\u{15c}\u{31b}","\u{53}\u{31b}\u{302}"],["\u{54}\u{31b}\u{302}","\u{54}\u{31b}\u{302}","\u{54}\u{31b}\u{302}","\u{54}\u{31b}\u{302}"],["\u{1af}\u{302}","\u{55}\u{31b}\u{302}","\u{1af}\u{302}","\u{55}\u{31b}\u{302}"],["\u{56}\u{31b}\u{302}","\u{56}\u{31b}\u{302}","\u{56}\u{31b}\u{302}","\u{56}\u{31b}\u{302}"],["\u{174}\u{31b}","\u{57}\u{31b}\u{302}","\u{174}\u{31b}","\u{57}\u{31b}\u{302}"],["\u{58}\u{31b}\u{302}","\u{58}\u{31b}\u{302}","\u{58}\u{31b}\u{302}","\u{58}\u{31b}\u{302}"],["\u{176}\u{31b}","\u{59}\u{31b}\u{302}","\u{176}\u{31b}","\u{59}\u{31b}\u{302}"],["\u{1e90}\u{31b}","\u{5a}\u{31b}\u{302}","\u{1e90}\u{31b}","\u{5a}\u{31b}\u{302}"],["\u{5b}\u{31b}\u{302}","\u{5b}\u{31b}\u{302}","\u{5b}\u{31b}\u{302}","\u{5b}\u{31b}\u{302}"],["\u{5c}\u{31b}\u{302}","\u{5c}\u{31b}\u{302}","\u{5c}\u{31b}\u{302}","\u{5c}\u{31b}\u{302}"],["\u{5d}\u{31b}\u{302}","\u{5d}\u{31b}\u{302}","\u{5d}\u{31b}\u{302}","\u{5d}\u{31b}\u{302}"],["\u{5e}\u{31b}\u{302}","\u{5e}\u{31b}\u{302}","\u{5e}\u{31b}\u{302}","\u{5e}\u{31b}\u{302}"],["\u{5f}\u{31b}\u{302}","\u{5f}\u{31b}\u{302}","\u{5f}\u{31b}\u{302}","\u{5f}\u{31b}\u{302}"],["\u{60}\u{31b}\u{302}","\u{60}\u{31b}\u{302}","\u{60}\u{31b}\u{302}","\u{60}\u{31b}\u{302}"],["\u{e2}\u{31b}","\u{61}\u{31b}\u{302}","\u{e2}\u{31b}","\u{61}\u{31b}\u{302}"],["\u{62}\u{31b}\u{302}","\u{62}\u{31b}\u{302}","\u{62}\u{31b}\u{302}","\u{62}\u{31b}\u{302}"],["\u{109}\u{31b}","\u{63}\u{31b}\u{302}","\u{109}\u{31b}","\u{63}\u{31b}\u{302}"],["\u{64}\u{31b}\u{302}","\u{64}\u{31b}\u{302}","\u{64}\u{31b}\u{302}","\u{64}\u{31b}\u{302}"],["\u{ea}\u{31b}","\u{65}\u{31b}\u{302}","\u{ea}\u{31b}","\u{65}\u{31b}\u{302}"],["\u{66}\u{31b}\u{302}","\u{66}\u{31b}\u{302}","\u{66}\u{31b}\u{302}","\u{66}\u{31b}\u{302}"],["\u{11d}\u{31b}","\u{67}\u{31b}\u{302}","\u{11d}\u{31b}","\u{67}\u{31b}\u{302}"],["\u{125}\u{31b}","\u{68}\u{31b}\u{302}","\u{125}\u{31b}","\u{68}\u{31b}\u{302}"],["\u{ee}\u{31b}","\u{69}\u{31b}\u{302}","\u{ee}\u{31b}","\u{69}\u{31b}\u{302}"],["\u{135}\u{31b}","\u{6a}\u{31b}\u{302}","\u{135}\u{31b}","\u{6a}\u{31b}\u{302}"],["\u{6b}\u{31b}\u{302}","\u{6b}\u{31b}\u{302}","\u{6b}\u{31b}\u{302}","\u{6b}\u{31b}\u{302}"],["\u{6c}\u{31b}\u{302}","\u{6c}\u{31b}\u{302}","\u{6c}\u{31b}\u{302}","\u{6c}\u{31b}\u{302}"],["\u{6d}\u{31b}\u{302}","\u{6d}\u{31b}\u{302}","\u{6d}\u{31b}\u{302}","\u{6d}\u{31b}\u{302}"],["\u{6e}\u{31b}\u{302}","\u{6e}\u{31b}\u{302}","\u{6e}\u{31b}\u{302}","\u{6e}\u{31b}\u{302}"],["\u{1a1}\u{302}","\u{6f}\u{31b}\u{302}","\u{1a1}\u{302}","\u{6f}\u{31b}\u{302}"],["\u{70}\u{31b}\u{302}","\u{70}\u{31b}\u{302}","\u{70}\u{31b}\u{302}","\u{70}\u{31b}\u{302}"],["\u{71}\u{31b}\u{302}","\u{71}\u{31b}\u{302}","\u{71}\u{31b}\u{302}","\u{71}\u{31b}\u{302}"],["\u{72}\u{31b}\u{302}","\u{72}\u{31b}\u{302}","\u{72}\u{31b}\u{302}","\u{72}\u{31b}\u{302}"],["\u{15d}\u{31b}","\u{73}\u{31b}\u{302}","\u{15d}\u{31b}","\u{73}\u{31b}\u{302}"],["\u{74}\u{31b}\u{302}","\u{74}\u{31b}\u{302}","\u{74}\u{31b}\u{302}","\u{74}\u{31b}\u{302}"],["\u{1b0}\u{302}","\u{75}\u{31b}\u{302}","\u{1b0}\u{302}","\u{75}\u{31b}\u{302}"],["\u{76}\u{31b}\u{302}","\u{76}\u{31b}\u{302}","\u{76}\u{31b}\u{302}","\u{76}\u{31b}\u{302}"],["\u{175}\u{31b}","\u{77}\u{31b}\u{302}","\u{175}\u{31b}","\u{77}\u{31b}\u{302}"],["\u{78}\u{31b}\u{302}","\u{78}\u{31b}\u{302}","\u{78}\u{31b}\u{302}","\u{78}\u{31b}\u{302}"],["\u{177}\u{31b}","\u{79}\u{31b}\u{302}","\u{177}\u{31b}","\u{79}\u{31b}\u{302}"],["\u{1e91}\u{31b}","\u{7a}\u{31b}\u{302}","\u{1e91}\u{31b}","\u{7a}\u{31b}\u{302}"]],
[["\u{c2}\u{345}","\u{41}\u{302}\u{345}","\u{c2}\u{345}","\u{41}\u{302}\u{345}"],["\u{42}\u{302}\u{345}","\u{42}\u{302}\u{345}","\u{42}\u{302}\u{345}","\u{42}\u{302}\u{345}"],["\u{108}\u{345}","\u{43}\u{302}\u{345}","\u{108}\u{345}","\u{43}\u{302}\u{345}"],["\u{44}\u{302}\u{345}","\u{44}\u{302}\u{345}","\u{44}\u{302}\u{345}","\u{44}\u{302}\u{345}"],["\u{ca}\u{345}","\u{45}\u{302}\u{345}","\u{ca}\u{345}","\u{45}\u{302}\u{345}"],["\u{46}\u{302}\u{345}","\u{46}\u{302}\u{345}","\u{46}\u{302}\u{345}","\u{46}\u{302}\u{345}"],["\u{11c}\u{345}","\u{47}\u{302}\u{345}","\u{11c}\u{345}","\u{47}\u{302}\u{345}"],["\u{124}\u{345}","\u{48}\u{302}\u{345}","\u{124}\u{345}","\u{48}\u{302}\u{345}"],["\u{ce}\u{345}","\u{49}\u{302}\u{345}","\u{ce}\u{345}","\u{49}\u{302}\u{345}"],["\u{134}\u{345}","\u{4a}\u{302}\u{345}","\u{134}\u{345}","\u{4a}\u{302}\u{345}"],["\u{4b}\u{302}\u{345}","\u{4b}\u{302}\u{345}","\u{4b}\u{302}\u{345}","\u{4b}\u{302}\u{345}"],["\u{4c}\u{302}\u{345}","\u{4c}\u{302}\u{345}","\u{4c}\u{302}\u{345}","\u{4c}\u{302}\u{345}"],["\u{4d}\u{302}\u{345}","\u{4d}\u{302}\u{345}","\u{4d}\u{302}\u{345}","\u{4d}\u{302}\u{345}"],["\u{4e}\u{302}\u{345}","\u{4e}\u{302}\u{345}","\u{4e}\u{302}\u{345}","\u{4e}\u{302}\u{345}"],["\u{d4}\u{345}","\u{4f}\u{302}\u{345}","\u{d4}\u{345}","\u{4f}\u{302}\u{345}"],["\u{50}\u{302}\u{345}","\u{50}\u{302}\u{345}","\u{50}\u{302}\u{345}","\u{50}\u{302}\u{345}"],["\u{51}\u{302}\u{345}","\u{51}\u{302}\u{345}","\u{51}\u{302}\u{345}","\u{51}\u{302}\u{345}"],["\u{52}\u{302}\u{345}","\u{52}\u{302}\u{345}","\u{52}\u{302}\u{345}","\u{52}\u{302}\u{345}"],["\u{15c}\u{345}","\u{53}\u{302}\u{345}","\u{15c}\u{345}","\u{53}\u{302}\u{345}"],["\u{54}\u{302}\u{345}","\u{54}\u{302}\u{345}","\u{54}\u{302}\u{345}","\u{54}\u{302}\u{345}"],["\u{db}\u{345}","\u{55}\u{302}\u{345}","\u{db}\u{345}","\u{55}\u{302}\u{345}"],["\u{56}\u{302}\u{345}","\u{56}\u{302}\u{345}","\u{56}\u{302}\u{345}","\u{56}\u{302}\u{345}"],["\u{174}\u{345}","\u{57}\u{302}\u{345}","\u{174}\u{345}","\u{57}\u{302}\u{345}"],["\u{58}\u{302}\u{345}","\u{58}\u{302}\u{345}","\u{58}\u{302}\u{345}","\u{58}\u{302}\u{345}"],["\u{176}\u{345}","\u{59}\u{302}\u{345}","\u{176}\u{345}","\u{59}\u{302}\u{345}"],["\u{1e90}\u{345}","\u{5a}\u{302}\u{345}","\u{1e90}\u{345}","\u{5a}\u{302}\u{345}"],["\u{5b}\u{302}\u{345}","\u{5b}\u{302}\u{345}","\u{5b}\u{302}\u{345}","\u{5b}\u{302}\u{345}"],["\u{5c}\u{302}\u{345}","\u{5c}\u{302}\u{345}","\u{5c}\u{302}\u{345}","\u{5c}\u{302}\u{345}"],["\u{5d}\u{302}\u{345}","\u{5d}\u{302}\u{345}","\u{5d}\u{302}\u{345}","\u{5d}\u{302}\u{345}"],["\u{5e}\u{302}\u{345}","\u{5e}\u{302}\u{345}","\u{5e}\u{302}\u{345}","\u{5e}\u{302}\u{345}"],["\u{5f}\u{302}\u{345}","\u{5f}\u{302}\u{345}","\u{5f}\u{302}\u{345}","\u{5f}\u{302}\u{345}"],["\u{60}\u{302}\u{345}","\u{60}\u{302}\u{345}","\u{60}\u{302}\u{345}","\u{60}\u{302}\u{345}"],["\u{e2}\u{345}","\u{61}\u{302}\u{345}","\u{e2}\u{345}","\u{61}\u{302}\u{345}"],["\u{62}\u{302}\u{345}","\u{62}\u{302}\u{345}","\u{62}\u{302}\u{345}","\u{62}\u{302}\u{345}"],["\u{109}\u{345}","\u{63}\u{302}\u{345}","\u{109}\u{345}","\u{63}\u{302}\u{345}"],["\u{64}\u{302}\u{345}","\u{64}\u{302}\u{345}","\u{64}\u{302}\u{345}","\u{64}\u{302}\u{345}"],["\u{ea}\u{345}","\u{65}\u{302}\u{345}","\u{ea}\u{345}","\u{65}\u{302}\u{345}"],["\u{66}\u{302}\u{345}","\u{66}\u{302}\u{345}","\u{66}\u{302}\u{345}","\u{66}\u{302}\u{345}"],["\u{11d}\u{345}","\u{67}\u{302}\u{345}","\u{11d}\u{345}","\u{67}\u{302}\u{345}"],["\u{125}\u{345}","\u{68}\u{302}\u{345}","\u{125}\u{345}","\u{68}\u{302}\u{345}"],["\u{ee}\u{345}","\u{69}\u{302}\u{345}","\u{ee}\u{345}","\u{69}\u{302}\u{345}"],["\u{135}\u{345}","\u{6a}\u{302}\u{345}","\u{135}\u{345}","\u{6a}\u{302}\u{345}"],["\u{6b}\u{302}\u{345}","\u{6b}\u{302}\u{345}","\u{6b}\u{302}\u{345}","\u{6b}\u{302}\u{345}"],["\u{6c}\u{302}\u{345}","\u{6c}\u{302}\u{345}","\u{6c}\u{302}\u{345}","\u{6c}\u{302}\u{345}"],["\u{6d}\u{302}\u{345}","\u{6d}\u{302}\u{345}","\u{6d}\u{302}\u{345}","\u{6d}\u{302}\u{345}"],["\u{6e}\u{302}\u{345}","\u{6e}\u{302}\u{345}","\u{6e}\u{302}\u{345}","\u{6e}\u{302}\u{345}"],["\u{f4}\u{345}","\u{6f}\u{302}\u{345}","\u{f4}\u{345}","\u{6f}\u{302}\u{345}"],["\u{70}\u{302}\u{345}","\u{70}\u{302}\u{345}","\u{70}\u{302}\u{345}","\u{70}\u{302}\u{345}"],["\u{71}\u{302}\u{345}","\u{71}\u{302}\u{345}","\u{71}\u{302}\u{345}","\u{71}\u{302}\u{345}"],["\u{72}\u{302}\u{345}","\u{72}\u{302}\u{345}","\u{72}\u{302}\u{345}","\u{72}\u{302}\u{345}"],["\u{15d}\u{345}","\u{73}\u{302}\u{345}","\u{15d}\u{345}","\u{73}\u{302}\u{345}"],["\u{74}\u{302}\u{345}","\u{74}\u{302}\u{345}","\u{74}\u{302}\u{345}","\u{74}\u{302}\u{345}"],["\u{fb}\u{345}","\u{75}\u{302}\u{345}","\u{fb}\u{345}","\u{75}\u{302}\u{345}"],["\u{76}\u{302}\u{345}","\u{76}\u{302}\u{345}","\u{76}\u{302}\u{345}","\u{76}\u{302}\u{345}"],["\u{175}\u{345}","\u{77}\u{302}\u{345}","\u{175}\u{345}","\u{77}\u{302}\u{345}"],["\u{78}\u{302}\u{345}","\u{78}\u{302}\u{345}","\u{78}\u{302}\u{345}","\u{78}\u{302}\u{345}"],["\u{177}\u{345}","\u{79}\u{302}\u{345}","\u{177}\u{345}","\u{79}\u{302}\u{345}"],["\u{1e91}\u{345}","\u{7a}\u{302}\u{345}","\u{1e91}\u{345}","\u{7a}\u{302}\u{345}"]],
[["\u{c2}\u{20d2}","\u{41}\u{20d2}\u{302}","\u{c2}\u{20d2}","\u{41}\u{20d2}\u{302}"],["\u{42}\u{20d2}\u{302}","\u{42}\u{20d2}\u{302}","\u{42}\u{20d2}\u{302}","\u{42}\u{20d2}\u{302}"],["\u{108}\u{20d2}","\u{43}\u{20d2}\u{302}","\u{108}\u{20d2}","\u{43}\u{20d2}\u{302}"],["\u{44}\u{20d2}\u{302}","\u{44}\u{20d2}\u{302}","\u{44}\u{20d2}\u{302}","\u{44}\u{20d2}\u{302}"],["\u{ca}\u{20d2}","\u{45}\u{20d2}\u{302}","\u{ca}\u{20d2}","\u{45}\u{20d2}\u{302}"],["\u{46}\u{20d2}\u{302}","\u{46}\u{20d2}\u{302}","\u{46}\u{20d2}\u{302}","\u{46}\u{20d2}\u{302}"],["\u{11c}\u{20d2}","\u{47}\u{20d2}\u{302}","\u{11c}\u{20d2}","\u{47}\u{20d2}\u{302}"],["\u{124}\u{20d2}","\u{48}\u{20d2}\u{302}","\u{124}\u{20d2}","\u{48}\u{20d2}\u{302}"],["\u{ce}\u{20d2}","\u{49}\u{20d2}\u{302}","\u{ce}\u{20d2}","\u{49}\u{20d2}\u{302}"],["\u{134}\u{20d2}","\u{4a}\u{20d2}\u{302}","\u{134}\u{20d2}","\u{4a}\u{20d2}\u{302}"],["\u{4b}\u{20d2}\u{302}","\u{4b}\u{20d2}\u{302}","\u{4b}\u{20d2}\u{302}","\u{4b}\u{20d2}\u{302}"],["\u{4c}\u{20d2}\u{302}","\u{4c}\u{20d2}\u{302}","\u{4c}\u{20d2}\u{302}","\u{4c}\u{20d2}\u{302}"],["\u{4d}\u{20d2}\u{302}","\u{4d}\u{20d2}\u{302}","\u{4d}\u{20d2}\u{302}","\u{4d}\u{20d2}\u{302}"],["\u{4e}\u{20d2}\u{302}","\u{4e}\u{20d2}\u{302}","\u{4e}\u{20d2}\u{302}","\u{4e}\u{20d2}\u{302}"],["\u{d4}\u{20d2}","\u{4f}\u{20d2}\u{302}","\u{d4}\u{20d2}","\u{4f}\u{20d2}\u{302}"],["\u{50}\u{20d2}\u{302}","\u{50}\u{20d2}\u{302}","\u{50}\u{20d2}\u{302}","\u{50}\u{20d2}\u{302}"],["\u{51}\u{20d2}\u{302}","\u{51}\u{20d2}\u{302}","\u{51}\u{20d2}\u{302}","\u{51}\u{20d2}\u{302}"],["\u{52}\u{20d2}\u{302}","\u{52}\u{20d2}\u{302}","\u{52}\u{20d2}\u{302}","\u{52}\u{20d2}\u{302}"],["\u{15c}\u{20d2}","\u{53}\u{20d2}\u{302}","\u{15c}\u{20d2}","\u{53}\u{20d2}\u{302}"],["\u{54}\u{20d2}\u{302}","\u{54}\u{20d2}\u{302}","\u{54}\u{20d2}\u{302}","\u{54}\u{20d2}\u{302}"],["\u{db}\u{20d2}","\u{55}\u{20d2}\u{302}","\u{db}\u{20d2}","\u{55}\u{20d2}\u{302}"],["\u{56}\u{20d2}\u{302}","\u{56}\u{20d2}\u{302}","\u{56}\u{20d2}\u{302}","\u{56}\u{20d2}\u{302}"],["\u{174}\u{20d2}","\u{57}\u{20d2}\u{302}","\u{174}\u{20d2}","\u{57}\u{20d2}\u{302}"],["\u{58}\u{20d2}\u{302}","\u{58}\u{20d2}\u{302}","\u{58}\u{20d2}\u{302}","\u{58}\u{20d2}\u{302}"],["\u{176}\u{20d2}","\u{59}\u{20d2}\u{302}","\u{176}\u{20d2}","\u{59}\u{20d2}\u{302}"],["\u{1e90}\u{20d2}","\u{5a}\u{20d2}\u{302}","\u{1e90}\u{20d2}","\u{5a}\u{20d2}\u{302}"],["\u{5b}\u{20d2}\u{302}","\u{5b}\u{20d2}\u{302}","\u{5b}\u{20d2}\u{302}","\u{5b}\u{20d2}\u{302}"],["\u{5c}\u{20d2}\u{302}","\u{5c}\u{20d2}\u{302}","\u{5c}\u{20d2}\u{302}","\u{5c}\u{20d2}\u{302}"],["\u{5d}\u{20d2}\u{302}","\u{5d}\u{20d2}\u{302}","\u{5d}\u{20d2}\u{302}","\u{5d}\u{20d2}\u{302}"],["\u{5e}\u{20d2}\u{302}","\u{5e}\u{20d2}\u{302}","\u{5e}\u{20d2}\u{302}","\u{5e}\u{20d2}\u{302}"],["\u{5f}\u{20d2}\u{302}","\u{5f}\u{20d2}\u{302}","\u{5f}\u{20d2}\u{302}","\u{5f}\u{20d2}\u{302}"],["\u{60}\u{20d2}\u{302}","\u{60}\u{20d2}\u{302}","\u{60}\u{20d2}\u{302}","\u{60}\u{20d2}\u{302}"],["\u{e2}\u{20d2}","\u{61}\u{20d2}\u{302}","\u{e2}\u{20d2}","\u{61}\u{20d2}\u{302}"],["\u{62}\u{20d2}\u{302}","\u{62}\u{20d2}\u{302}","\u{62}\u{20d2}\u{302}","\u{62}\u{20d2}\u{302}"],["\u{109}\u{20d2}","\u{63}\u{20d2}\u{302}","\u{109}\u{20d2}","\u{63}\u{20d2}\u{302}"],["\u{64}\u{20d2}\u{302}","\u{64}\u{20d2}\u{302}","\u{64}\u{20d2}\u{302}","\u{64}\u{20d2}\u{302}"],["\u{ea}\u{20d2}","\u{65}\u{20d2}\u{302}","\u{ea}\u{20d2}","\u{65}\u{20d2}\u{302}"],["\u{66}\u{20d2}\u{302}","\u{66}\u{20d2}\u{302}","\u{66}\u{20d2}\u{302}","\u{66}\u{20d2}\u{302}"],["\u{11d}\u{20d2}","\u{67}\u{20d2}\u{302}","\u{11d}\u{20d2}","\u{67}\u{20d2}\u{302}"],["\u{125}\u{20d2}","\u{68}\u{20d2}\u{302}","\u{125}\u{20d2}","\u{68}\u{20d2}\u{302}"],["\u{ee}\u{20d2}","\u{69}\u{20d2}\u{302}","\u{ee}\u{20d2}","\u{69}\u{20d2}\u{302}"],["\u{135}\u{20d2}","\u{6a}\u{20d2}\u{302}","\u{135}\u{20d2}","\u{6a}\u{20d2}\u{302}"],["\u{6b}\u{20d2}\u{302}","\u{6b}\u{20d2}\u{302}","\u{6b}\u{20d2}\u{302}","\u{6b}\u{20d2}\u{302}"],["\u{6c}\u{20d2}\u{302}","\u{6c}\u{20d2}\u{302}","\u{6c}\u{20d2}\u{302}","\u{6c}\u{20d2}\u{302}"],["\u{6d}\u{20d2}\u{302}","\u{6d}\u{20d2}\u{302}","\u{6d}\u{20d2}\u{302}","\u{6d}\u{20d2}\u{302}"],["\u{6e}\u{20d2}\u{302}","\u{6e}\u{20d2}\u{302}","\u{6e}\u{20d2}\u{302}","\u{6e}\u{20d2}\u{302}"],["\u{f4}\u{20d2}","\u{6f}\u{20d2}\u{302}","\u{f4}\u{20d2}","\u{6f}\u{20d2}\u{302}"],["\u{70}\u{20d2}\u{302}","\u{70}\u{20d2}\u{302}","\u{70}\u{20d2}\u{302}","\u{70}\u{20d2}\u{302}"],["\u{71}\u{20d2}\u{302}","\u{71}\u{20d2}\u{302}","\u{71}\u{20d2}\u{302}","\u{71}\u{20d2}\u{302}"],["\u{72}\u{20d2}\u{302}","\u{72}\u{20d2}\u{302}","\u{72}\u{20d2}\u{302}","\u{72}\u{20d2}\u{302}"],["\u{15d}\u{20d2}","\u{73}\u{20d2}\u{302}","\u{15d}\u{20d2}","\u{73}\u{20d2}\u{302}"],["\u{74}\u{20d2}\u{302}","\u{74}\u{20d2}\u{302}","\u{74}\u{20d2}\u{302}","\u{74}\u{20d2}\u{302}"],["\u{fb}\u{20d2}","\u{75}\u{20d2}\u{302}","\u{fb}\u{20d2}","\u{75}\u{20d2}\u{302}"],["\u{76}\u{20d2}\u{302}","\u{76}\u{20d2}\u{302}","\u{76}\u{20d2}\u{302}","\u{76}\u{20d2}\u{302}"],["\u{175}\u{20d2}","\u{77}\u{20d2}\u{302}","\u{175}\u{20d2}","\u{77}\u{20d2}\u{302}"],["\u{78}\u{20d2}\u{302}","\u{78}\u{20d2}\u{302}","\u{78}\u{20d2}\u{302}","\u{78}\u{20d2}\u{302}"],["\u{177}\u{20d2}","\u{79}\u{20d2}\u{302}","\u{177}\u{20d2}","\u{79}\u{20d2}\u{302}"],["\u{1e91}\u{20d2}","\u{7a}\u{20d2}\u{302}","\u{1e91}\u{20d2}","\u{7a}\u{20d2}\u{302}"]],
[["\u{c3}\u{300}","\u{41}\u{303}\u{300}","\u{c3}\u{300}","\u{41}\u{303}\u{300}"],["\u{42}\u{303}\u{300}","\u{42}\u{303}\u{300}","\u{42}\u{303}\u{300}","\u{42}\u{303}\u{300}"],["\u{43}\u{303}\u{300}","\u{43}\u{303}\u{300}","\u{43}\u{303}\u{300}","\u{43}\u{303}\u{300}"],["\u{44}\u{303}\u{300}","\u{44}\u{303}\u{300}","\u{44}\u{303}\u{300}","\u{44}\u{303}\u{300}"],["\u{1ebc}\u{300}","\u{45}\u{303}\u{300}","\u{1ebc}\u{300}","\u{45}\u{303}\u{300}"],["\u{46}\u{303}\u{300}","\u{46}\u{303}\u{300}","\u{46}\u{303}\u{300}","\u{46}\u{303}\u{300}"],["\u{47}\u{303}\u{300}","\u{47}\u{303}\u{300}","\u{47}\u{303}\u{300}","\u{47}\u{303}\u{300}"],["\u{48}\u{303}\u{300}","\u{48}\u{303}\u{300}","\u{48}\u{303}\u{300}","\u{48}\u{303}\u{300}"],["\u{128}\u{300}","\u{49}\u{303}\u{300}","\u{128}\u{300}","\u{49}\u{303}\u{300}"],["\u{4a}\u{303}\u{300}","\u{4a}\u{303}\u{300}","\u{4a}\u{303}\u{300}","\u{4a}\u{303}\u{300}"],["\u{4b}\u{303}\u{300}","\u{4b}\u{303}\u{300}","\u{4b}\u{303}\u{300}","\u{4b}\u{303}\u{300}"],["\u{4c}\u{303}\u{300}","\u{4c}\u{303}\u{300}","\u{4c}\u{303}\u{300}","\u{4c}\u{303}\u{300}"],["\u{4d}\u{303}\u{300}","\u{4d}\u{303}\u{300}","\u{4d}\u{303}\u{300}","\u{4d}\u{303}\u{300}"],["\u{d1}\u{300}","\u{4e}\u{303}\u{300}","\u{d1}\u{300}","\u{4e}\u{303}\u{300}"],["\u{d5}\u{300}","\u{4f}\u{303}\u{300}","\u{d5}\u{300}","\u{4f}\u{303}\u{300}"],["\u{50}\u{303}\u{300}","\u{50}\u{303}\u{300}","\u{50}\u{303}\u{300}","\u{50}\u{303}\u{300}"],["\u{51}\u{303}\u{300}","\u{51}\u{303}\u{300}","\u{51}\u{303}\u{300}","\u{51}\u{303}\u{300}"],["\u{52}\u{303}\u{300}","\u{52}\u{303}\u{300}","\u{52}\u{303}\u{300}","\u{52}\u{303}\u{300}"],["\u{53}\u{303}\u{300}","\u{53}\u{303}\u{300}","\u{53}\u{303}\u{300}","\u{53}\u{303}\u{300}"],["\u{54}\u{303}\u{300}","\u{54}\u{303}\u{300}","\u{54}\u{303}\u{300}","\u{54}\u{303}\u{300}"],["\u{168}\u{300}","\u{55}\u{303}\u{300}","\u{168}\u{300}","\u{55}\u{303}\u{300}"],["\u{1e7c}\u{300}","\u{56}\u{303}\u{300}","\u{1e7c}\u{300}","\u{56}\u{303}\u{300}"],["\u{57}\u{303}\u{300}","\u{57}\u{303}\u{300}","\u{57}\u{303}\u{300}","\u{57}\u{303}\u{300}"],["\u{58}\u{303}\u{300}","\u{58}\u{303}\u{300}","\u{58}\u{303}\u{300}","\u{58}\u{303}\u{300}"],["\u{1ef8}\u{300}","\u{59}\u{303}\u{300}","\u{1ef8}\u{300}","\u{59}\u{303}\u{300}"],["\u{5a}\u{303}\u{300}","\u{5a}\u{303}\u{300}","\u{5a}\u{303}\u{300}","\u{5a}\u{303}\u{300}"],["\u{5b}\u{303}\u{300}","\u{5b}\u{303}\u{300}","\u{5b}\u{303}\u{300}","\u{5b}\u{303}\u{300}"],["\u{5c}\u{303}\u{300}","\u{5c}\u{303}\u{300}","\u{5c}\u{303}\u{300}","\u{5c}\u{303}\u{300}"],["\u{5d}\u{303}\u{300}","\u{5d}\u{303}\u{300}","\u{5d}\u{303}\u{300}","\u{5d}\u{303}\u{300}"],["\u{5e}\u{303}\u{300}","\u{5e}\u{303}\u{300}","\u{5e}\u{303}\u{300}","\u{5e}\u{303}\u{300}"],["\u{5f}\u{303}\u{300}","\u{5f}\u{303}\u{300}","\u{5f}\u{303}\u{300}","\u{5f}\u{303}\u{300}"],["\u{60}\u{303}\u{300}","\u{60}\u{303}\u{300}","\u{60}\u{303}\u{300}","\u{60}\u{303}\u{300}"],["\u{e3}\u{300}","\u{61}\u{303}\u{300}","\u{e3}\u{300}","\u{61}\u{303}\u{300}"],["\u{62}\u{303}\u{300}","\u{62}\u{303}\u{300}","\u{62}\u{303}\u{300}","\u{62}\u{303}\u{300}"],["\u{63}\u{303}\u{300}","\u{63}\u{303}\u{300}","\u{63}\u{303}\u{300}","\u{63}\u{303}\u{300}"],["\u{64}\u{303}\u{300}","\u{64}\u{303}\u{300}","\u{64}\u{303}\u{300}","\u{64}\u{303}\u{300}"],["\u{1ebd}\u{300}","\u{65}\u{303}\u{300}","\u{1ebd}\u{300}","\u{65}\u{303}\u{300}"],["\u{66}\u{303}\u{300}","\u{66}\u{303}\u{300}","\u{66}\u{303}\u{300}","\u{66}\u{303}\u{300}"],["\u{67}\u{303}\u{300}","\u{67}\u{303}\u{300}","\u{67}\u{303}\u{300}","\u{67}\u{303}\u{300}"],["\u{68}\u{303}\u{300}","\u{68}\u{303}\u{300}","\u{68}\u{303}\u{300}","\u{68}\u{303}\u{300}"],["\u{129}\u{300}","\u{69}\u{303}\u{300}","\u{129}\u{300}","\u{69}\u{303}\u{300}"],["\u{6a}\u{303}\u{300}","\u{6a}\u{303}\u{300}","\u{6a}\u{303}\u{300}","\u{6a}\u{303}\u{300}"],["\u{6b}\u{303}\u{300}","\u{6b}\u{303}\u{300}","\u{6b}\u{303}\u{300}","\u{6b}\u{303}\u{300}"],["\u{6c}\u{303}\u{300}","\u{6c}\u{303}\u{300}","\u{6c}\u{303}\u{300}","\u{6c}\u{303}\u{300}"],["\u{6d}\u{303}\u{300}","\u{6d}\u{303}\u{300}","\u{6d}\u{303}\u{300}","\u{6d}\u{303}\u{300}"],["\u{f1}\u{300}","\u{6e}\u{303}\u{300}","\u{f1}\u{300}","\u{6e}\u{303}\u{300}"],["\u{f5}\u{300}","\u{6f}\u{303}\u{300}","\u{f5}\u{300}","\u{6f}\u{303}\u{300}"],["\u{70}\u{303}\u{300}","\u{70}\u{303}\u{300}","\u{70}\u{303}\u{300}","\u{70}\u{303}\u{300}"],["\u{71}\u{303}\u{300}","\u{71}\u{303}\u{300}","\u{71}\u{303}\u{300}","\u{71}\u{303}\u{300}"],["\u{72}\u{303}\u{300}","\u{72}\u{303}\u{300}","\u{72}\u{303}\u{300}","\u{72}\u{303}\u{300}"],["\u{73}\u{303}\u{300}","\u{73}\u{303}\u{300}","\u{73}\u{303}\u{300}","\u{73}\u{303}\u{300}"],["\u{74}\u{303}\u{300}","\u{74}\u{303}\u{300}","\u{74}\u{303}\u{300}","\u{74}\u{303}\u{300}"],["\u{169}\u{300}","\u{75}\u{303}\u{300}","\u{169}\u{300}","\u{75}\u{303}\u{300}"],["\u{1e7d}\u{300}","\u{76}\u{303}\u{300}","\u{1e7d}\u{300}","\u{76}\u{303}\u{300}"],["\u{77}\u{303}\u{300}","\u{77}\u{303}\u{300}","\u{77}\u{303}\u{300}","\u{77}\u{303}\u{300}"],["\u{78}\u{303}\u{300}","\u{78}\u{303}\u{300}","\u{78}\u{303}\u{300}","\u{78}\u{303}\u{300}"],["\u{1ef9}\u{300}","\u{79}\u{303}\u{300}","\u{1ef9}\u{300}","\u{79}\u{303}\u{300}"],["\u{7a}\u{303}\u{300}","\u{7a}\u{303}\u{300}","\u{7a}\u{303}\u{300}","\u{7a}\u{303}\u{300}"]],
[["\u{c3}\u{301}","\u{41}\u{303}\u{301}","\u{c3}\u{301}","\u{41}\u{303}\u{301}"],["\u{42}\u{303}\u{301}","\u{42}\u{303}\u{301}","\u{42}\u{303}\u{301}","\u{42}\u{303}\u{301}"],["\u{43}\u{303}\u{301}","\u{43}\u{303}\u{301}","\u{43}\u{303}\u{301}","\u{43}\u{303}\u{301}"],["\u{44}\u{303}\u{301}","\u{44}\u{303}\u{301}","\u{44}\u{303}\u{301}","\u{44}\u{303}\u{301}"],["\u{1ebc}\u{301}","\u{45}\u{303}\u{301}","\u{1ebc}\u{301}","\u{45}\u{303}\u{301}"],["\u{46}\u{303}\u{301}","\u{46}\u{303}\u{301}","\u{46}\u{303}\u{301}","\u{46}\u{303}\u{301}"],["\u{47}\u{303}\u{301}","\u{47}\u{303}\u{301}","\u{47}\u{303}\u{301}","\u{47}\u{303}\u{301}"],["\u{48}\u{303}\u{301}","\u{48}\u{303}\u{301}","\u{48}\u{303}\u{301}","\u{48}\u{303}\u{301}"],["\u{128}\u{301}","\u{49}\u{303}\u{301}","\u{128}\u{301}","\u{49}\u{303}\u{301}"],["\u{4a}\u{303}\u{301}","\u{4a}\u{303}\u{301}","\u{4a}\u{303}\u{301}","\u{4a}\u{303}\u{301}"],["\u{4b}\u{303}\u{301}","\u{4b}\u{303}\u{301}","\u{4b}\u{303}\u{301}","\u{4b}\u{303}\u{301}"],["\u{4c}\u{303}\u{301}","\u{4c}\u{303}\u{301}","\u{4c}\u{303}\u{301}","\u{4c}\u{303}\u{301}"],["\u{4d}\u{303}\u{301}","\u{4d}\u{303}\u{301}","\u{4d}\u{303}\u{301}","\u{4d}\u{303}\u{301}"],["\u{d1}\u{301}","\u{4e}\u{303}\u{301}","\u{d1}\u{301}","\u{4e}\u{303}\u{301}"],["\u{1e4c}","\u{4f}\u{303}\u{301}","\u{1e4c}","\u{4f}\u{303}\u{301}"],["\u{50}\u{303}\u{301}","\u{50}\u{303}\u{301}","\u{50}\u{303}\u{301}","\u{50}\u{303}\u{301}"],["\u{51}\u{303}\u{301}","\u{51}\u{303}\u{301}","\u{51}\u{303}\u{301}","\u{51}\u{303}\u{301}"],["\u{52}\u{303}\u{301}","\u{52}\u{303}\u{301}","\u{52}\u{303}\u{301}","\u{52}\u{303}\u{301}"],["\u{53}\u{303}\u{301}","\u{53}\u{303}\u{301}","\u{53}\u{303}\u{301}","\u{53}\u{303}\u{301}"],["\u{54}\u{303}\u{301}","\u{54}\u{303}\u{301}","\u{54}\u{303}\u{301}","\u{54}\u{303}\u{301}"],["\u{1e78}","\u{55}\u{303}\u{301}","\u{1e78}","\u{55}\u{303}\u{301}"],["\u{1e7c}\u{301}","\u{56}\u{303}\u{301}","\u{1e7c}\u{301}","\u{56}\u{303}\u{301}"],["\u{57}\u{303}\u{301}","\u{57}\u{303}\u{301}","\u{57}\u{303}\u{301}","\u{57}\u{303}\u{301}"],["\u{58}\u{303}\u{301}","\u{58}\u{303}\u{301}","\u{58}\u{303}\u{301}","\u{58}\u{303}\u{301}"],["\u{1ef8}\u{301}","\u{59}\u{303}\u{301}","\u{1ef8}\u{301}","\u{59}\u{303}\u{301}"],["\u{5a}\u{303}\u{301}","\u{5a}\u{303}\u{301}","\u{5a}\u{303}\u{301}","\u{5a}\u{303}\u{301}"],["\u{5b}\u{303}\u{301}","\u{5b}\u{303}\u{301}","\u{5b}\u{303}\u{301}","\u{5b}\u{303}\u{301}"],["\u{5c}\u{303}\u{301}","\u{5c}\u{303}\u{301}","\u{5c}\u{303}\u{301}","\u{5c}\u{303}\u{301}"],["\u{5d}\u{303}\u{301}","\u{5d}\u{303}\u{301}","\u{5d}\u{303}\u{301}","\u{5d}\u{303}\u{301}"],["\u{5e}\u{303}\u{301}","\u{5e}\u{303}\u{301}","\u{5e}\u{303}\u{301}","\u{5e}\u{303}\u{301}"],["\u{5f}\u{303}\u{301}","\u{5f}\u{303}\u{301}","\u{5f}\u{303}\u{301}","\u{5f}\u{303}\u{301}"],["\u{60}\u{303}\u{301}","\u{60}\u{303}\u{301}","\u{60}\u{303}\u{301}","\u{60}\u{303}\u{301}"],["\u{e3}\u{301}","\u{61}\u{303}\u{301}","\u{e3}\u{301}","\u{61}\u{303}\u{301}"],["\u{62}\u{303}\u{301}","\u{62}\u{303}\u{301}","\u{62}\u{303}\u{301}","\u{62}\u{303}\u{301}"],["\u{63}\u{303}\u{301}","\u{63}\u{303}\u{301}","\u{63}\u{303}\u{301}","\u{63}\u{303}\u{301}"],["\u{64}\u{303}\u{301}","\u{64}\u{303}\u{301}","\u{64}\u{303}\u{301}","\u{64}\u{303}\u{301}"],["\u{1ebd}\u{301}","\u{65}\u{303}\u{301}","\u{1ebd}\u{301}","\u{65}\u{303}\u{301}"],["\u{66}\u{303}\u{301}","\u{66}\u{303}\u{301}","\u{66}\u{303}\u{301}","\u{66}\u{303}\u{301}"],["\u{67}\u{303}\u{301}","\u{67}\u{303}\u{301}","\u{67}\u{303}\u{301}","\u{67}\u{303}\u{301}"],["\u{68}\u{303}\u{301}","\u{68}\u{303}\u{301}","\u{68}\u{303}\u{301}","\u{68}\u{303}\u{301}"],["\u{129}\u{301}","\u{69}\u{303}\u{301}","\u{129}\u{301}","\u{69}\u{303}\u{301}"],["\u{6a}\u{303}\u{301}","\u{6a}\u{303}\u{301}","\u{6a}\u{303}\u{301}","\u{6a}\u{303}\u{301}"],["\u{6b}\u{303}\u{301}","\u{6b}\u{303}\u{301}","\u{6b}\u{303}\u{301}","\u{6b}\u{303}\u{301}"],["\u{6c}\u{303}\u{301}","\u{6c}\u{303}\u{301}","\u{6c}\u{303}\u{301}","\u{6c}\u{303}\u{301}"],["\u{6d}\u{303}\u{301}","\u{6d}\u{303}\u{301}","\u{6d}\u{303}\u{301}","\u{6d}\u{303}\u{301}"],["\u{f1}\u{301}","\u{6e}\u{303}\u{301}","\u{f1}\u{301}","\u{6e}\u{303}\u{301}"],["\u{1e4d}","\u{6f}\u{303}\u{301}","\u{1e4d}","\u{6f}\u{303}\u{301}"],["\u{70}\u{303}\u{301}","\u{70}\u{303}\u{301}","\u{70}\u{303}\u{301}","\u{70}\u{303}\u{301}"],["\u{71}\u{303}\u{301}","\u{71}\u{303}\u{301}","\u{71}\u{303}\u{301}","\u{71}\u{303}\u{301}"],["\u{72}\u{303}\u{301}","\u{72}\u{303}\u{301}","\u{72}\u{303}\u{301}","\u{72}\u{303}\u{301}"],["\u{73}\u{303}\u{301}","\u{73}\u{303}\u{301}","\u{73}\u{303}\u{301}","\u{73}\u{303}\u{301}"],["\u{74}\u{303}\u{301}","\u{74}\u{303}\u{301}","\u{74}\u{303}\u{301}","\u{74}\u{303}\u{301}"],["\u{1e79}","\u{75}\u{303}\u{301}","\u{1e79}","\u{75}\u{303}\u{301}"],["\u{1e7d}\u{301}","\u{76}\u{303}\u{301}","\u{1e7d}\u{301}","\u{76}\u{303}\u{301}"],["\u{77}\u{303}\u{301}","\u{77}\u{303}\u{301}","\u{77}\u{303}\u{301}","\u{77}\u{303}\u{301}"],["\u{78}\u{303}\u{301}","\u{78}\u{303}\u{301}","\u{78}\u{303}\u{301}","\u{78}\u{303}\u{301}"],["\u{1ef9}\u{301}","\u{79}\u{303}\u{301}","\u{1ef9}\u{301}","\u{79}\u{303}\u{301}"],["\u{7a}\u{303}\u{301}","\u{7a}\u{303}\u{301}","\u{7a}\u{303}\u{301}","\u{7a}\u{303}\u{301}"]],
[["\u{c3}\u{302}","\u{41}\u{303}\u{302}","\u{c3}\u{302}","\u{41}\u{303}\u{302}"],["\u{42}\u{303}\u{302}","\u{42}\u{303}\u{302}","\u{42}\u{303}\u{302}","\u{42}\u{303}\u{302}"],["\u{43}\u{303}\u{302}","\u{43}\u{303}\u{302}","\u{43}\u{303}\u{302}","\u{43}\u{303}\u{302}"],["\u{44}\u{303}\u{302}","\u{44}\u{303}\u{302}","\u{44}\u{303}\u{302}","\u{44}\u{303}\u{302}"],["\u{1ebc}\u{302}","\u{45}\u{303}\u{302}","\u{1ebc}\u{302}","\u{45}\u{303}\u{302}"],["\u{46}\u{303}\u{302}","\u{46}\u{303}\u{302}","\u{46}\u{303}\u{302}","\u{46}\u{303}\u{302}"],["\u{47}\u{303}\u{302}","\u{47}\u{303}\u{302}","\u{47}\u{303}\u{302}","\u{47}\u{303}\u{302}"],["\u{48}\u{303}\u{302}","\u{48}\u{303}\u{302}","\u{48}\u{303}\u{302}","\u{48}\u{303}\u{302}"],["\u{128}\u{302}","\u{49}\u{303}\u{302}","\u{128}\u{302}","\u{49}\u{303}\u{302}"],["\u{4a}\u{303}\u{302}","\u{4a}\u{303}\u{302}","\u{4a}\u{303}\u{302}","\u{4a}\u{303}\u{302}"],["\u{4b}\u{303}\u{302}","\u{4b}\u{303}\u{302}","\u{4b}\u{303}\u{302}","\u{4b}\u{303}\u{302}"],["\u{4c}\u{303}\u{302}","\u{4c}\u{303}\u{302}","\u{4c}\u{303}\u{302}","\u{4c}\u{303}\u{302}"],["\u{4d}\u{303}\u{302}","\u{4d}\u{303}\u{302}","\u{4d}\u{303}\u{302}","\u{4d}\u{303}\u{302}"],["\u{d1}\u{302}","\u{4e}\u{303}\u{302}","\u{d1}\u{302}","\u{4e}\u{303}\u{302}"],["\u{d5}\u{302}","\u{4f}\u{303}\u{302}","\u{d5}\u{302}","\u{4f}\u{303}\u{302}"],["\u{50}\u{303}\u{302}","\u{50}\u{303}\u{302}","\u{50}\u{303}\u{302}","\u{50}\u{303}\u{302}"],["\u{51}\u{303}\u{302}","\u{51}\u{303}\u{302}","\u{51}\u{303}\u{302}","\u{51}\u{303}\u{302}"],["\u{52}\u{303}\u{302}","\u{52}\u{303}\u{302}","\u{52}\u{303}\u{302}","\u{52}\u{303}\u{302}"],["\u{53}\u{303}\u{302}","\u{53}\u{303}\u{302}","\u{53}\u{303}\u{302}","\u{53}\u{303}\u{302}"],["\u{54}\u{303}\u{302}","\u{54}\u{303}\u{302}","\u{54}\u{303}\u{302}","\u{54}\u{303}\u{302}"],["\u{168}\u{302}","\u{55}\u{303}\u{302}","\u{168}\u{302}","\u{55}\u{303}\u{302}"],["\u{1e7c}\u{302}","\u{56}\u{303}\u{302}","\u{1e7c}\u{302}","\u{56}\u{303}\u{302}"],["\u{57}\u{303}\u{302}","\u{57}\u{303}\u{302}","\u{57}\u{303}\u{302}","\u{57}\u{303}\u{302}"],["\u{58}\u{303}\u{302}","\u{58}\u{303}\u{302}","\u{58}\u{303}\u{302}","\u{58}\u{303}\u{302}"],["\u{1ef8}\u{302}","\u{59}\u{303}\u{302}","\u{1ef8}\u{302}","\u{59}\u{303}\u{302}"],["\u{5a}\u{303}\u{302}","\u{5a}\u{303}\u{302}","\u{5a}\u{303}\u{302}","\u{5a}\u{303}\u{302}"],["\u{5b}\u{303}\u{302}","\u{5b}\u{303}\u{302}","\u{5b}\u{303}\u{302}","\u{5b}\u{303}\u{302}"],["\u{5c}\u{303}\u{302}","\u{5c}\u{303}\u{302}","\u{5c}\u{303}\u{302}","\u{5c}\u{303}\u{302}"],["\u{5d}\u{303}\u{302}","\u{5d}\u{303}\u{302}","\u{5d}\u{303}\u{302}","\u{5d}\u{303}\u{302}"],["\u{5e}\u{303}\u{302}","\u{5e}\u{303}\u{302}","\u{5e}\u{303}\u{302}","\u{5e}\u{303}\u{302}"],["\u{5f}\u{303}\u{302}","\u{5f}\u{303}\u{302}","\u{5f}\u{303}\u{302}","\u{5f}\u{303}\u{302}"],["\u{60}\u{303}\u{302}","\u{60}\u{303}\u{302}","\u{60}\u{303}\u{302}","\u{60}\u{303}\u{302}"],["\u{e3}\u{302}","\u{61}\u{303}\u{302}","\u{e3}\u{302}","\u{61}\u{303}\u{302}"],["\u{62}\u{303}\u{302}","\u{62}\u{303}\u{302}","\u{62}\u{303}\u{302}","\u{62}\u{303}\u{302}"],["\u{63}\u{303}\u{302}","\u{63}\u{303}\u{302}","\u{63}\u{303}\u{302}","\u{63}\u{303}\u{302}"],["\u{64}\u{303}\u{302}","\u{64}\u{303}\u{302}","\u{64}\u{303}\u{302}","\u{64}\u{303}\u{302}"],["\u{1ebd}\u{302}","\u{65}\u{303}\u{302}","\u{1ebd}\u{302}","\u{65}\u{303}\u{302}"],["\u{66}\u{303}\u{302}","\u{66}\u{303}\u{302}","\u{66}\u{303}\u{302}","\u{66}\u{303}\u{302}"],["\u{67}\u{303}\u{302}","\u{67}\u{303}\u{302}","\u{67}\u{303}\u{302}","\u{67}\u{303}\u{302}"],["\u{68}\u{303}\u{302}","\u{68}\u{303}\u{302}","\u{68}\u{303}\u{302}","\u{68}\u{303}\u{302}"],["\u{129}\u{302}","\u{69}\u{303}\u{302}","\u{129}\u{302}","\u{69}\u{303}\u{302}"],["\u{6a}\u{303}\u{302}","\u{6a}\u{303}\u{302}","\u{6a}\u{303}\u{302}","\u{6a}\u{303}\u{302}"],["\u{6b}\u{303}\u{302}","\u{6b}\u{303}\u{302}","\u{6b}\u{303}\u{302}","\u{6b}\u{303}\u{302}"],["\u{6c}\u{303}\u{302}","\u{6c}\u{303}\u{302}","\u{6c}\u{303}\u{302}","\u{6c}\u{303}\u{302}"],["\u{6d}\u{303}\u{302}","\u{6d}\u{303}\u{302}","\u{6d}\u{303}\u{302}","\u{6d}\u{303}\u{302}"],["\u{f1}\u{302}","\u{6e}\u{303}\u{302}","\u{f1}\u{302}","\u{6e}\u{303}\u{302}"],["\u{f5}\u{302}","\u{6f}\u{303}\u{302}","\u{f5}\u{302}","\u{6f}\u{303}\u{302}"],["\u{70}\u{303}\u{302}","\u{70}\u{303}\u{302}","\u{70}\u{303}\u{302}","\u{70}\u{303}\u{302}"],["\u{71}\u{303}\u{302}","\u{71}\u{303}\u{302}","\u{71}\u{303}\u{302}","\u{71}\u{303}\u{302}"],["\u{72}\u{303}\u{302}","\u{72}\u{303}\u{302}","\u{72}\u{303}\u{302}","\u{72}\u{303}\u{302}"],["\u{73}\u{303}\u{302}","\u{73}\u{303}\u{302}","\u{73}\u{303}\u{302}","\u{73}\u{303}\u{302}"],["\u{74}\u{303}\u{302}","\u{74}\u{303}\u{302}","\u{74}\u{303}\u{302}","\u{74}\u{303}\u{302}"],["\u{169}\u{302}","\u{75}\u{303}\u{302}","\u{169}\u{302}","\u{75}\u{303}\u{302}"],["\u{1e7d}\u{302}","\u{76}\u{303}\u{302}","\u{1e7d}\u{302}","\u{76}\u{303}\u{302}"],["\u{77}\u{303}\u{302}","\u{77}\u{303}\u{302}","\u{77}\u{303}\u{302}","\u{77}\u{303}\u{302}"],["\u{78}\u{303}\u{302}","\u{78}\u{303}\u{302}","\u{78}\u{303}\u{302}","\u{78}\u{303}\u{302}"],["\u{1ef9}\u{302}","\u{79}\u{303}\u{302}","\u{1ef9}\u{302}","\u{79}\u{303}\u{302}"],["\u{7a}\u{303}\u{302}","\u{7a}\u{303}\u{302}","\u{7a}\u{303}\u{302}","\u{7a}\u{303}\u{302}"]],
[["\u{c3}\u{303}","\u{41}\u{303}\u{303}","\u{c3}\u{303}","\u{41}\u{303}\u{303}"],["\u{42}\u{303}\u{303}","\u{42}\u{303}\u{303}","\u{42}\u{303}\u{303}","\u{42}\u{303}\u{303}"],["\u{43}\u{303}\u{303}","\u{43}\u{303}\u{303}","\u{43}\u{303}\u{303}","\u{43}\u{303}\u{303}"],["\u{44}\u{303}\u{303}","\u{44}\u{303}\u{303}","\u{44}\u{303}\u{303}","\u{44}\u{303}\u{303}"],["\u{1ebc}\u{303}","\u{45}\u{303}\u{303}","\u{1ebc}\u{303}","\u{45}\u{303}\u{303}"],["\u{46}\u{303}\u{303}","\u{46}\u{303}\u{303}","\u{46}\u{303}\u{303}","\u{46}\u{303}\u{303}"],["\u{47}\u{303}\u{303}","\u{47}\u{303}\u{303}","\u{47}\u{303}\u{303}","\u{47}\u{303}\u{303}"],["\u{48}\u{303}\u{303}","\u{48}\u{303}\u{303}","\u{48}\u{303}\u{303}","\u{48}\u{303}\u{303}"],["\u{128}\u{303}","\u{49}\u{303}\u{303}","\u{128}\u{303}","\u{49}\u{303}\u{303}"],["\u{4a}\u{303}\u{303}","\u{4a}\u{303}\u{303}","\u{4a}\u{303}\u{303}","\u{4a}\u{303}\u{303}"],["\u{4b}\u{303}\u{303}","\u{4b}\u{303}\u{303}","\u{4b}\u{303}\u{303}","\u{4b}\u{303}\u{303}"],["\u{4c}\u{303}\u{303}","\u{4c}\u{303}\u{303}","\u{4c}\u{303}\u{303}","\u{4c}\u{303}\u{303}"],["\u{4d}\u{303}\u{303}","\u{4d}\u{303}\u{303}","\u{4d}\u{303}\u{303}","\u{4d}\u{303}\u{303}"],["\u{d1}\u{303}","\u{4e}\u{303}\u{303}","\u{d1}\u{303}","\u{4e}\u{303}\u{303}"],["\u{d5}\u{303}","\u{4f}\u{303}\u{303}","\u{d5}\u{303}","\u{4f}\u{303}\u{303}"],["\u{50}\u{303}\u{303}","\u{50}\u{303}\u{303}","\u{50}\u{303}\u{303}","\u{50}\u{303}\u{303}"],["\u{51}\u{303}\u{303}","\u{51}\u{303}\u{303}","\u{51}\u{303}\u{303}","\u{51}\u{303}\u{303}"],["\u{52}\u{303}\u{303}","\u{52}\u{303}\u{303}","\u{52}\u{303}\u{303}","\u{52}\u{303}\u{303}"],["\u{53}\u{303}\u{303}","\u{53}\u{303}\u{303}","\u{53}\u{303}\u{303}","\u{53}\u{303}\u{303}"],["\u{54}\u{303}\u{303}","\u{54}\u{303}\u{303}","\u{54}\u{303}\u{303}","\u{54}\u{303}\u{303}"],["\u{168}\u{303}","\u{55}\u{303}\u{303}","\u{168}\u{303}","\u{55}\u{303}\u{303}"],["\u{1e7c}\u{303}","\u{56}\u{303}\u{303}","\u{1e7c}\u{303}","\u{56}\u{303}\u{303}"],["\u{57}\u{303}\u{303}","\u{57}\u{303}\u{303}","\u{57}\u{303}\u{303}","\u{57}\u{303}\u{303}"],["\u{58}\u{303}\u{303}","\u{58}\u{303}\u{303}","\u{58}\u{303}\u{303}","\u{58}\u{303}\u{303}"],["\u{1ef8}\u{303}","\u{59}\u{303}\u{303}","\u{1ef8}\u{303}","\u{59}\u{303}\u{303}"],["\u{5a}\u{303}\u{303}","\u{5a}\u{303}\u{303}","\u{5a}\u{303}\u{303}","\u{5a}\u{303}\u{303}"],["\u{5b}\u{303}\u{303}","\u{5b}\u{303}\u{303}","\u{5b}\u{303}\u{303}","\u{5b}\u{303}\u{303}"],["\u{5c}\u{303}\u{303}","\u{5c}\u{303}\u{303}","\u{5c}\u{303}\u{303}","\u{5c}\u{303}\u{303}"],["\u{5d}\u{303}\u{303}","\u{5d}\u{303}\u{303}","\u{5d}\u{303}\u{303}","\u{5d}\u{303}\u{303}"],["\u{5e}\u{303}\u{303}","\u{5e}\u{303}\u{303}","\u{5e}\u{303}\u{303}","\u{5e}\u{303}\u{303}"],["\u{5f}\u{303}\u{303}","\u{5f}\u{303}\u{303}","\u{5f}\u{303}\u{303}","\u{5f}\u{303}\u{303}"],["\u{60}\u{303}\u{303}","\u{60}\u{303}\u{303}","\u{60}\u{303}\u{303}","\u{60}\u{303}\u{303}"],["\u{e3}\u{303}","\u{61}\u{303}\u{303}","\u{e3}\u{303}","\u{61}\u{303}\u{303}"],["\u{62}\u{303}\u{303}","\u{62}\u{303}\u{303}","\u{62}\u{303}\u{303}","\u{62}\u{303}\u{303}"],["\u{63}\u{303}\u{303}","\u{63}\u{303}\u{303}","\u{63}\u{303}\u{303}","\u{63}\u{303}\u{303}"],["\u{64}\u{303}\u{303}","\u{64}\u{303}\u{303}","\u{64}\u{303}\u{303}","\u{64}\u{303}\u{303}"],["\u{1ebd}\u{303}","\u{65}\u{303}\u{303}","\u{1ebd}\u{303}","\u{65}\u{303}\u{303}"],["\u{66}\u{303}\u{303}","\u{66}\u{303}\u{303}","\u{66}\u{303}\u{303}","\u{66}\u{303}\u{303}"],["\u{67}\u{303}\u{303}","\u{67}\u{303}\u{303}","\u{67}\u{303}\u{303}","\u{67}\u{303}\u{303}"],["\u{68}\u{303}\u{303}","\u{68}\u{303}\u{303}","\u{68}\u{303}\u{303}","\u{68}\u{303}\u{303}"],["\u{129}\u{303}","\u{69}\u{303}\u{303}","\u{129}\u{303}","\u{69}\u{303}\u{303}"],["\u{6a}\u{303}\u{303}","\u{6a}\u{303}\u{303}","\u{6a}\u{303}\u{303}","\u{6a}\u{303}\u{303}"],["\u{6b}\u{303}\u{303}","\u{6b}\u{303}\u{303}","\u{6b}\u{303}\u{303}","\u{6b}\u{303}\u{303}"],["\u{6c}\u{303}\u{303}","\u{6c}\u{303}\u{303}","\u{6c}\u{303}\u{303}","\u{6c}\u{303}\u{303}"],["\u{6d}\u{303}\u{303}","\u{6d}\u{303}\u{303}","\u{6d}\u{303}\u{303}","\u{6d}\u{303}\u{303}"],["\u{f1}\u{303}","\u{6e}\u{303}\u{303}","\u{f1}\u{303}","\u{6e}\u{303}\u{303}"],["\u{f5}\u{303}","\u{6f}\u{303}\u{303}","\u{f5}\u{303}","\u{6f}\u{303}\u{303}"],["\u{70}\u{303}\u{303}","\u{70}\u{303}\u{303}","\u{70}\u{303}\u{303}","\u{70}\u{303}\u{303}"],["\u{71}\u{303}\u{303}","\u{71}\u{303}\u{303}","\u{71}\u{303}\u{303}","\u{71}\u{303}\u{303}"],["\u{72}\u{303}\u{303}","\u{72}\u{303}\u{303}","\u{72}\u{303}\u{303}","\u{72}\u{303}\u{303}"],["\u{73}\u{303}\u{303}","\u{73}\u{303}\u{303}","\u{73}\u{303}\u{303}","\u{73}\u{303}\u{303}"],["\u{74}\u{303}\u{303}","\u{74}\u{303}\u{303}","\u{74}\u{303}\u{303}","\u{74}\u{303}\u{303}"],["\u{169}\u{303}","\u{75}\u{303}\u{303}","\u{169}\u{303}","\u{75}\u{303}\u{303}"],["\u{1e7d}\u{303}","\u{76}\u{303}\u{303}","\u{1e7d}\u{303}","\u{76}\u{303}\u{303}"],["\u{77}\u{303}\u{303}","\u{77}\u{303}\u{303}","\u{77}\u{303}\u{303}","\u{77}\u{303}\u{303}"],["\u{78}\u{303}\u{303}","\u{78}\u{303}\u{303}","\u{78}\u{303}\u{303}","\u{78}\u{303}\u{303}"],["\u{1ef9}\u{303}","\u{79}\u{303}\u{303}","\u{1ef9}\u{303}","\u{79}\u{303}\u{303}"],["\u{7a}\u{303}\u{303}","\u{7a}\u{303}\u{303}","\u{7a}\u{303}\u{303}","\u{7a}\u{303}\u{303}"]],
[["\u{c3}\u{308}","\u{41}\u{303}\u{308}","\u{c3}\u{308}","\u{41}\u{303}\u{308}"],["\u{42}\u{303}\u{308}","\u{42}\u{303}\u{308}","\u{42}\u{303}\u{308}","\u{42}\u{303}\u{308}"],["\u{43}\u{303}\u{308}","\u{43}\u{303}\u{308}","\u{43}\u{303}\u{308}","\u{43}\u{303}\u{308}"],["\u{44}\u{303}\u{308}","\u{44}\u{303}\u{308}","\u{44}\u{303}\u{308}","\u{44}\u{303}\u{308}"],["\u{1ebc}\u{308}","\u{45}\u{303}\u{308}","\u{1ebc}\u{308}","\u{45}\u{303}\u{308}"],["\u{46}\u{303}\u{308}","\u{46}\u{303}\u{308}","\u{46}\u{303}\u{308}","\u{46}\u{303}\u{308}"],["\u{47}\u{303}\u{308}","\u{47}\u{303}\u{308}","\u{47}\u{303}\u{308}","\u{47}\u{303}\u{308}"],["\u{48}\u{303}\u{308}","\u{48}\u{303}\u{308}","\u{48}\u{303}\u{308}","\u{48}\u{303}\u{308}"],["\u{128}\u{308}","\u{49}\u{303}\u{308}","\u{128}\u{308}","\u{49}\u{303}\u{308}"],["\u{4a}\u{303}\u{308}","\u{4a}\u{303}\u{308}","\u{4a}\u{303}\u{308}","\u{4a}\u{303}\u{308}"],["\u{4b}\u{303}\u{308}","\u{4b}\u{303}\u{308}","\u{4b}\u{303}\u{308}","\u{4b}\u{303}\u{308}"],["\u{4c}\u{303}\u{308}","\u{4c}\u{303}\u{308}","\u{4c}\u{303}\u{308}","\u{4c}\u{303}\u{308}"],["\u{4d}\u{303}\u{308}","\u{4d}\u{303}\u{308}","\u{4d}\u{303}\u{308}","\u{4d}\u{303}\u{308}"],["\u{d1}\u{308}","\u{4e}\u{303}\u{308}","\u{d1}\u{308}","\u{4e}\u{303}\u{308}"],["\u{1e4e}","\u{4f}\u{303}\u{308}","\u{1e4e}","\u{4f}\u{303}\u{308}"],["\u{50}\u{303}\u{308}","\u{50}\u{303}\u{308}","\u{50}\u{303}\u{308}","\u{50}\u{303}\u{308}"],["\u{51}\u{303}\u{308}","\u{51}\u{303}\u{308}","\u{51}\u{303}\u{308}","\u{51}\u{303}\u{308}"],["\u{52}\u{303}\u{308}","\u{52}\u{303}\u{308}","\u{52}\u{303}\u{308}","\u{52}\u{303}\u{308}"],["\u{53}\u{303}\u{308}","\u{53}\u{303}\u{308}","\u{53}\u{303}\u{308}","\u{53}\u{303}\u{308}"],["\u{54}\u{303}\u{308}","\u{54}\u{303}\u{308}","\u{54}\u{303}\u{308}","\u{54}\u{303}\u{308}"],["\u{168}\u{308}","\u{55}\u{303}\u{308}","\u{168}\u{308}","\u{55}\u{303}\u{308}"],["\u{1e7c}\u{308}","\u{56}\u{303}\u{308}","\u{1e7c}\u{308}","\u{56}\u{303}\u{308}"],["\u{57}\u{303}\u{308}","\u{57}\u{303}\u{308}","\u{57}\u{303}\u{308}","\u{57}\u{303}\u{308}"],["\u{58}\u{303}\u{308}","\u{58}\u{303}\u{308}","\u{58}\u{303}\u{308}","\u{58}\u{303}\u{308}"],["\u{1ef8}\u{308}","\u{59}\u{303}\u{308}","\u{1ef8}\u{308}","\u{59}\u{303}\u{308}"],["\u{5a}\u{303}\u{308}","\u{5a}\u{303}\u{308}","\u{5a}\u{303}\u{308}","\u{5a}\u{303}\u{308}"],["\u{5b}\u{303}\u{308}","\u{5b}\u{303}\u{308}","\u{5b}\u{303}\u{308}","\u{5b}\u{303}\u{308}"],["\u{5c}\u{303}\u{308}","\u{5c}\u{303}\u{308}","\u{5c}\u{303}\u{308}","\u{5c}\u{303}\u{308}"],["\u{5d}\u{303}\u{308}","\u{5d}\u{303}\u{308}","\u{5d}\u{303}\u{308}","\u{5d}\u{303}\u{308}"],["\u{5e}\u{303}\u{308}","\u{5e}\u{303}\u{308}","\u{5e}\u{303}\u{308}","\u{5e}\u{303}\u{308}"],["\u{5f}\u{303}\u{308}","\u{5f}\u{303}\u{308}","\u{5f}\u{303}\u{308}","\u{5f}\u{303}\u{308}"],["\u{60}\u{303}\u{308}","\u{60}\u{303}\u{308}","\u{60}\u{303}\u{308}","\u{60}\u{303}\u{308}"],["\u{e3}\u{308}","\u{61}\u{303}\u{308}","\u{e3}\u{308}","\u{61}\u{303}\u{308}"],["\u{62}\u{303}\u{308}","\u{62}\u{303}\u{308}","\u{62}\u{303}\u{308}","\u{62}\u{303}\u{308}"],["\u{63}\u{303}\u{308}","\u{63}\u{303}\u{308}","\u{63}\u{303}\u{308}","\u{63}\u{303}\u{308}"],["\u{64}\u{303}\u{308}","\u{64}\u{303}\u{308}","\u{64}\u{303}\u{308}","\u{64}\u{303}\u{308}"],["\u{1ebd}\u{308}","\u{65}\u{303}\u{308}","\u{1ebd}\u{308}","\u{65}\u{303}\u{308}"],["\u{66}\u{303}\u{308}","\u{66}\u{303}\u{308}","\u{66}\u{303}\u{308}","\u{66}\u{303}\u{308}"],["\u{67}\u{303}\u{308}","\u{67}\u{303}\u{308}","\u{67}\u{303}\u{308}","\u{67}\u{303}\u{308}"],["\u{68}\u{303}\u{308}","\u{68}\u{303}\u{308}","\u{68}\u{303}\u{308}","\u{68}\u{303}\u{308}"],["\u{129}\u{308}","\u{69}\u{303}\u{308}","\u{129}\u{308}","\u{69}\u{303}\u{308}"],["\u{6a}\u{303}\u{308}","\u{6a}\u{303}\u{308}","\u{6a}\u{303}\u{308}","\u{6a}\u{303}\u{308}"],["\u{6b}\u{303}\u{308}","\u{6b}\u{303}\u{308}","\u{6b}\u{303}\u{308}","\u{6b}\u{303}\u{308}"],["\u{6c}\u{303}\u{308}","\u{6c}\u{303}\u{308}","\u{6c}\u{303}\u{308}","\u{6c}\u{303}\u{308}"],["\u{6d}\u{303}\u{308}","\u{6d}\u{303}\u{308}","\u{6d}\u{303}\u{308}","\u{6d}\u{303}\u{308}"],["\u{f1}\u{308}","\u{6e}\u{303}\u{308}","\u{f1}\u{308}","\u{6e}\u{303}\u{308}"],["\u{1e4f}","\u{6f}\u{303}\u{308}","\u{1e4f}","\u{6f}\u{303}\u{308}"],["\u{70}\u{303}\u{308}","\u{70}\u{303}\u{308}","\u{70}\u{303}\u{308}","\u{70}\u{303}\u{308}"],["\u{71}\u{303}\u{308}","\u{71}\u{303}\u{308}","\u{71}\u{303}\u{308}","\u{71}\u{303}\u{308}"],["\u{72}\u{303}\u{308}","\u{72}\u{303}\u{308}","\u{72}\u{303}\u{308}","\u{72}\u{303}\u{308}"],["\u{73}\u{303}\u{308}","\u{73}\u{303}\u{308}","\u{73}\u{303}\u{308}","\u{73}\u{303}\u{308}"],["\u{74}\u{303}\u{308}","\u{74}\u{303}\u{308}","\u{74}\u{303}\u{308}","\u{74}\u{303}\u{308}"],["\u{169}\u{308}","\u{75}\u{303}\u{308}","\u{169}\u{308}","\u{75}\u{303}\u{308}"],["\u{1e7d}\u{308}","\u{76}\u{303}\u{308}","\u{1e7d}\u{308}","\u{76}\u{303}\u{308}"],["\u{77}\u{303}\u{308}","\u{77}\u{303}\u{308}","\u{77}\u{303}\u{308}","\u{77}\u{303}\u{308}"],["\u{78}\u{303}\u{308}","\u{78}\u{303}\u{308}","\u{78}\u{303}\u{308}","\u{78}\u{303}\u{308}"],["\u{1ef9}\u{308}","\u{79}\u{303}\u{308}","\u{1ef9}\u{308}","\u{79}\u{303}\u{308}"],["\u{7a}\u{303}\u{308}","\u{7a}\u{303}\u{308}","\u{7a}\u{303}\u{308}","\u{7a}\u{303}\u{308}"]],
[["\u{1ea0}\u{303}","\u{41}\u{323}\u{303}","\u{1ea0}\u{303}","\u{41}\u{323}\u{303}"],["\u{1e04}\u{303}","\u{42}\u{323}\u{303}","\u{1e04}\u{303}","\u{42}\u{323}\u{303}"],["\u{43}\u{323}\u{303}","\u{43}\u{323}\u{303}","\u{43}\u{323}\u{303}","\u{43}\u{323}\u{303}"],["\u{1e0c}\u{303}","\u{44}\u{323}\u{303}","\u{1e0c}\u{303}","\u{44}\u{323}\u{303}"],["\u{1eb8}\u{303}","\u{45}\u{323}\u{303}","\u{1eb8}\u{303}","\u{45}\u{323}\u{303}"],["\u{46}\u{323}\u{303}","\u{46}\u{323}\u{303}","\u{46}\u{323}\u{303}","\u{46}\u{323}\u{303}"],["\u{47}\u{323}\u{303}","\u{47}\u{323}\u{303}","\u{47}\u{323}\u{303}","\u{47}\u{323}\u{303}"],["\u{1e24}\u{303}","\u{48}\u{323}\u{303}","\u{1e24}\u{303}","\u{48}\u{323}\u{303}"],["\u{1eca}\u{303}","\u{49}\u{323}\u{303}","\u{1eca}\u{303}","\u{49}\u{323}\u{303}"],["\u{4a}\u{323}\u{303}","\u{4a}\u{323}\u{303}","\u{4a}\u{323}\u{303}","\u{4a}\u{323}\u{303}"],["\u{1e32}\u{303}","\u{4b}\u{323}\u{303}","\u{1e32}\u{303}","\u{4b}\u{323}\u{303}"],["\u{1e36}\u{303}","\u{4c}\u{323}\u{303}","\u{1e36}\u{303}","\u{4c}\u{323}\u{303}"],["\u{1e42}\u{303}","\u{4d}\u{323}\u{303}","\u{1e42}\u{303}","\u{4d}\u{323}\u{303}"],["\u{1e46}\u{303}","\u{4e}\u{323}\u{303}","\u{1e46}\u{303}","\u{4e}\u{323}\u{303}"],["\u{1ecc}\u{303}","\u{4f}\u{323}\u{303}","\u{1ecc}\u{303}","\u{4f}\u{323}\u{303}"],["\u{50}\u{323}\u{303}","\u{50}\u{323}\u{303}","\u{50}\u{323}\u{303}","\u{50}\u{323}\u{303}"],["\u{51}\u{323}\u{303}","\u{51}\u{323}\u{303}","\u{51}\u{323}\u{303}","\u{51}\u{323}\u{303}"],["\u{1e5a}\u{303}","\u{52}\u{323}\u{303}","\u{1e5a}\u{303}","\u{52}\u{323}\u{303}"],["\u{1e62}\u{303}","\u{53}\u{323}\u{303}","\u{1e62}\u{303}","\u{53}\u{323}\u{303}"],["\u{1e6c}\u{303}","\u{54}\u{323}\u{303}","\u{1e6c}\u{303}","\u{54}\u{323}\u{303}"],["\u{1ee4}\u{303}","\u{55}\u{323}\u{303}","\u{1ee4}\u{303}","\u{55}\u{323}\u{303}"],["\u{1e7e}\u{303}","\u{56}\u{323}\u{303}","\u{1e7e}\u{303}","\u{56}\u{323}\u{303}"],["\u{1e88}\u{303}","\u{57}\u{323}\u{303}","\u{1e88}\u{303}","\u{57}\u{323}\u{303}"],["\u{58}\u{323}\u{303}","\u{58}\u{323}\u{303}","\u{58}\u{323}\u{303}","\u{58}\u{323}\u{303}"],["\u{1ef4}\u{303}","\u{59}\u{323}\u{303}","\u{1ef4}\u{303}","\u{59}\u{323}\u{303}"],["\u{1e92}\u{303}","\u{5a}\u{323}\u{303}","\u{1e92}\u{303}","\u{5a}\u{323}\u{303}"],["\u{5b}\u{323}\u{303}","\u{5b}\u{323}\u{303}","\u{5b}\u{323}\u{303}","\u{5b}\u{323}\u{303}"],["\u{5c}\u{323}\u{303}","\u{5c}\u{323}\u{303}","\u{5c}\u{323}\u{303}","\u{5c}\u{323}\u{303}"],["\u{5d}\u{323}\u{303}","\u{5d}\u{323}\u{303}","\u{5d}\u{323}\u{303}","\u{5d}\u{323}\u{303}"],["\u{5e}\u{323}\u{303}","\u{5e}\u{323}\u{303}","\u{5e}\u{323}\u{303}","\u{5e}\u{323}\u{303}"],["\u{5f}\u{323}\u{303}","\u{5f}\u{323}\u{303}","\u{5f}\u{323}\u{303}","\u{5f}\u{323}\u{303}"],["\u{60}\u{323}\u{303}","\u{60}\u{323}\u{303}","\u{60}\u{323}\u{303}","\u{60}\u{323}\u{303}"],["\u{1ea1}\u{303}","\u{61}\u{323}\u{303}","\u{1ea1}\u{303}","\u{61}\u{323}\u{303}"],["\u{1e05}\u{303}","\u{62}\u{323}\u{303}","\u{1e05}\u{303}","\u{62}\u{323}\u{303}"],["\u{63}\u{323}\u{303}","\u{63}\u{323}\u{303}","\u{63}\u{323}\u{303}","\u{63}\u{323}\u{303}"],["\u{1e0d}\u{303}","\u{64}\u{323}\u{303}","\u{1e0d}\u{303}","\u{64}\u{323}\u{303}"],["\u{1eb9}\u{303}","\u{65}\u{323}\u{303}","\u{1eb9}\u{303}","\u{65}\u{323}\u{303}"],["\u{66}\u{323}\u{303}","\u{66}\u{323}\u{303}","\u{66}\u{323}\u{303}","\u{66}\u{323}\u{303}"],["\u{67}\u{323}\u{303}","\u{67}\u{323}\u{303}","\u{67}\u{323}\u{303}","\u{67}\u{323}\u{303}"],["\u{1e25}\u{303}","\u{68}\u{323}\u{303}","\u{1e25}\u{303}","\u{68}\u{323}\u{303}"],["\u{1ecb}\u{303}","\u{69}\u{323}\u{303}","\u{1ecb}\u{303}","\u{69}\u{323}\u{303}"],["\u{6a}\u{323}\u{303}","\u{6a}\u{323}\u{303}","\u{6a}\u{323}\u{303}","\u{6a}\u{323}\u{303}"],["\u{1e33}\u{303}","\u{6b}\u{323}\u{303}","\u{1e33}\u{303}","\u{6b}\u{323}\u{303}"],["\u{1e37}\u{303}","\u{6c}\u{323}\u{303}","\u{1e37}\u{303}","\u{6c}\u{323}\u{303}"],["\u{1e43}\u{303}","\u{6d}\u{323}\u{303}","\u{1e43}\u{303}","\u{6d}\u{323}\u{303}"],["\u{1e47}\u{303}","\u{6e}\u{323}\u{303}","\u{1e47}\u{303}","\u{6e}\u{323}\u{303}"],["\u{1ecd}\u{303}","\u{6f}\u{323}\u{303}","\u{1ecd}\u{303}","\u{6f}\u{323}\u{303}"],["\u{70}\u{323}\u{303}","\u{70}\u{323}\u{303}","\u{70}\u{323}\u{303}","\u{70}\u{323}\u{303}"],["\u{71}\u{323}\u{303}","\u{71}\u{323}\u{303}","\u{71}\u{323}\u{303}","\u{71}\u{323}\u{303}"],["\u{1e5b}\u{303}","\u{72}\u{323}\u{303}","\u{1e5b}\u{303}","\u{72}\u{323}\u{303}"],["\u{1e63}\u{303}","\u{73}\u{323}\u{303}","\u{1e63}\u{303}","\u{73}\u{323}\u{303}"],["\u{1e6d}\u{303}","\u{74}\u{323}\u{303}","\u{1e6d}\u{303}","\u{74}\u{323}\u{303}"],["\u{1ee5}\u{303}","\u{75}\u{323}\u{303}","\u{1ee5}\u{303}","\u{75}\u{323}\u{303}"],["\u{1e7f}\u{303}","\u{76}\u{323}\u{303}","\u{1e7f}\u{303}","\u{76}\u{323}\u{303}"],["\u{1e89}\u{303}","\u{77}\u{323}\u{303}","\u{1e89}\u{303}","\u{77}\u{323}\u{303}"],["\u{78}\u{323}\u{303}","\u{78}\u{323}\u{303}","\u{78}\u{323}\u{303}","\u{78}\u{323}\u{303}"],["\u{1ef5}\u{303}","\u{79}\u{323}\u{303}","\u{1ef5}\u{303}","\u{79}\u{323}\u{303}"],["\u{1e93}\u{303}","\u{7a}\u{323}\u{303}","\u{1e93}\u{303}","\u{7a}\u{323}\u{303}"]],
[["\u{c3}\u{327}","\u{41}\u{327}\u{303}","\u{c3}\u{327}","\u{41}\u{327}\u{303}"],["\u{42}\u{327}\u{303}","\u{42}\u{327}\u{303}","\u{42}\u{327}\u{303}","\u{42}\u{327}\u{303}"],["\u{c7}\u{303}","\u{43}\u{327}\u{303}","\u{c7}\u{303}","\u{43}\u{327}\u{303}"],["\u{1e10}\u{303}","\u{44}\u{327}\u{303}","\u{1e10}\u{303}","\u{44}\u{327}\u{303}"],["\u{228}\u{303}","\u{45}\u{327}\u{303}","\u{228}\u{303}","\u{45}\u{327}\u{303}"],["\u{46}\u{327}\u{303}","\u{46}\u{327}\u{303}","\u{46}\u{327}\u{303}","\u{46}\u{327}\u{303}"],["\u{122}\u{303}","\u{47}\u{327}\u{303}","\u{122}\u{303}","\u{47}\u{327}\u{303}"],["\u{1e28}\u{303}","\u{48}\u{327}\u{303}","\u{1e28}\u{303}","\u{48}\u{327}\u{303}"],["\u{128}\u{327}","\u{49}\u{327}\u{303}","\u{128}\u{327}","\u{49}\u{327}\u{303}"],["\u{4a}\u{327}\u{303}","\u{4a}\u{327}\u{303}","\u{4a}\u{327}\u{303}","\u{4a}\u{327}\u{303}"],["\u{136}\u{303}","\u{4b}\u{327}\u{303}","\u{136}\u{303}","\u{4b}\u{327}\u{303}"],["\u{13b}\u{303}","\u{4c}\u{327}\u{303}","\u{13b}\u{303}","\u{4c}\u{327}\u{303}"],["\u{4d}\u{327}\u{303}","\u{4d}\u{327}\u{303}","\u{4d}\u{327}\u{303}","\u{4d}\u{327}\u{303}"],["\u{145}\u{303}","\u{4e}\u{327}\u{303}","\u{145}\u{303}","\u{4e}\u{327}\u{303}"],["\u{d5}\u{327}","\u{4f}\u{327}\u{303}","\u{d5}\u{327}","\u{4f}\u{327}\u{303}"],["\u{50}\u{327}\u{303}","\u{50}\u{327}\u{303}","\u{50}\u{327}\u{303}","\u{50}\u{327}\u{303}"],["\u{51}\u{327}\u{303}","\u{51}\u{327}\u{303}","\u{51}\u{327}\u{303}","\u{51}\u{327}\u{303}"],["\u{156}\u{303}","\u{52}\u{327}\u{303}","\u{156}\u{303}","\u{52}\u{327}\u{303}"],["\u{15e}\u{303}","\u{53}\u{327}\u{303}","\u{15e}\u{303}","\u{53}\u{327}\u{303}"],["\u{162}\u{303}","\u{54}\u{327}\u{303}","\u{162}\u{303}","\u{54}\u{327}\u{303}"],["\u{168}\u{327}","\u{55}\u{327}\u{303}","\u{168}\u{327}","\u{55}\u{327}\u{303}"],["\u{1e7c}\u{327}","\u{56}\u{327}\u{303}","\u{1e7c}\u{327}","\u{56}\u{327}\u{303}"],["\u{57}\u{327}\u{303}","\u{57}\u{327}\u{303}","\u{57}\u{327}\u{303}","\u{57}\u{327}\u{303}"],["\u{58}\u{327}\u{303}","\u{58}\u{327}\u{303}","\u{58}\u{327}\u{303}","\u{58}\u{327}\u{303}"],["\u{1ef8}\u{327}","\u{59}\u{327}\u{303}","\u{1ef8}\u{327}","\u{59}\u{327}\u{303}"],["\u{5a}\u{327}\u{303}","\u{5a}\u{327}\u{303}","\u{5a}\u{327}\u{303}","\u{5a}\u{327}\u{303}"],["\u{5b}\u{327}\u{303}","\u{5b}\u{327}\u{303}","\u{5b}\u{327}\u{303}","\u{5b}\u{327}\u{303}"],["\u{5c}\u{327}\u{303}","\u{5c}\u{327}\u{303}","\u{5c}\u{327}\u{303}","\u{5c}\u{327}\u{303}"],["\u{5d}\u{327}\u{303}","\u{5d}\u{327}\u{303}","\u{5d}\u{327}\u{303}","\u{5d}\u{327}\u{303}"],["\u{5e}\u{327}\u{303}","\u{5e}\u{327}\u{303}","\u{5e}\u{327}\u{303}","\u{5e}\u{327}\u{303}"],["\u{5f}\u{327}\u{303}","\u{5f}\u{327}\u{303}","\u{5f}\u{327}\u{303}","\u{5f}\u{327}\u{303}"],["\u{60}\u{327}\u{303}","\u{60}\u{327}\u{303}","\u{60}\u{327}\u{303}","\u{60}\u{327}\u{303}"],["\u{e3}\u{327}","\u{61}\u{327}\u{303}","\u{e3}\u{327}","\u{61}\u{327}\u{303}"],["\u{62}\u{327}\u{303}","\u{62}\u{327}\u{303}","\u{62}\u{327}\u{303}","\u{62}\u{327}\u{303}"],["\u{e7}\u{303}","\u{63}\u{327}\u{303}","\u{e7}\u{303}","\u{63}\u{327}\u{303}"],["\u{1e11}\u{303}","\u{64}\u{327}\u{303}","\u{1e11}\u{303}","\u{64}\u{327}\u{303}"],["\u{229}\u{303}","\u{65}\u{327}\u{303}","\u{229}\u{303}","\u{65}\u{327}\u{303}"],["\u{66}\u{327}\u{303}","\u{66}\u{327}\u{303}","\u{66}\u{327}\u{303}","\u{66}\u{327}\u{303}"],["\u{123}\u{303}","\u{67}\u{327}\u{303}","\u{123}\u{303}","\u{67}\u{327}\u{303}"],["\u{1e29}\u{303}","\u{68}\u{327}\u{303}","\u{1e29}\u{303}","\u{68}\u{327}\u{303}"],["\u{129}\u{327}","\u{69}\u{327}\u{303}","\u{129}\u{327}","\u{69}\u{327}\u{303}"],["\u{6a}\u{327}\u{303}","\u{6a}\u{327}\u{303}","\u{6a}\u{327}\u{303}","\u{6a}\u{327}\u{303}"],["\u{137}\u{303}","\u{6b}\u{327}\u{303}","\u{137}\u{303}","\u{6b}\u{327}\u{303}"],["\u{13c}\u{303}","\u{6c}\u{327}\u{303}","\u{13c}\u{303}","\u{6c}\u{327}\u{303}"],["\u{6d}\u{327}\u{303}","\u{6d}\u{327}\u{303}","\u{6d}\u{327}\u{303}","\u{6d}\u{327}\u{303}"],["\u{146}\u{303}","\u{6e}\u{327}\u{303}","\u{146}\u{303}","\u{6e}\u{327}\u{303}"],["\u{f5}\u{327}","\u{6f}\u{327}\u{303}","\u{f5}\u{327}","\u{6f}\u{327}\u{303}"],["\u{70}\u{327}\u{303}","\u{70}\u{327}\u{303}","\u{70}\u{327}\u{303}","\u{70}\u{327}\u{303}"],["\u{71}\u{327}\u{303}","\u{71}\u{327}\u{303}","\u{71}\u{327}\u{303}","\u{71}\u{327}\u{303}"],["\u{157}\u{303}","\u{72}\u{327}\u{303}","\u{157}\u{303}","\u{72}\u{327}\u{303}"],["\u{15f}\u{303}","\u{73}\u{327}\u{303}","\u{15f}\u{303}","\u{73}\u{327}\u{303}"],["\u{163}\u{303}","\u{74}\u{327}\u{303}","\u{163}\u{303}","\u{74}\u{327}\u{303}"],["\u{169}\u{327}","\u{75}\u{327}\u{303}","\u{169}\u{327}","\u{75}\u{327}\u{303}"],["\u{1e7d}\u{327}","\u{76}\u{327}\u{303}","\u{1e7d}\u{327}","\u{76}\u{327}\u{303}"],["\u{77}\u{327}\u{303}","\u{77}\u{327}\u{303}","\u{77}\u{327}\u{303}","\u{77}\u{327}\u{303}"],["\u{78}\u{327}\u{303}","\u{78}\u{327}\u{303}","\u{78}\u{327}\u{303}","\u{78}\u{327}\u{303}"],["\u{1ef9}\u{327}","\u{79}\u{327}\u{303}","\u{1ef9}\u{327}","\u{79}\u{327}\u{303}"],["\u{7a}\u{327}\u{303}","\u{7a}\u{327}\u{303}","\u{7a}\u{327}\u{303}","\u{7a}\u{327}\u{303}"]],
[["\u{c3}\u{31b}","\u{41}\u{31b}\u{303}","\u{c3}\u{31b}","\u{41}\u{31b}\u{303}"],["\u{42}\u{31b}\u{303}","\u{42}\u{31b}\u{303}","\u{42}\u{31b}\u{303}","\u{42}\u{31b}\u{303}"],["\u{43}\u{31b}\u{303}","\u{43}\u{31b}\u{303}","\u{43}\u{31b}\u{303}","\u{43}\u{31b}\u{303}"],["\u{44}\u{31b}\u{303}","\u{44}\u{31b}\u{303}","\u{44}\u{31b}\u{303}","\u{44}\u{31b}\u{303}"],["\u{1ebc}\u{31b}","\u{45}\u{31b}\u{303}","\u{1ebc}\u{31b}","\u{45}\u{31b}\u{303}"],["\u{46}\u{31b}\u{303}","\u{46}\u{31b}\u{303}","\u{46}\u{31b}\u{303}","\u{46}\u{31b}\u{303}"],["\u{47}\u{31b}\u{303}","\u{47}\u{31b}\u{303}","\u{47}\u{31b}\u{303}","\u{47}\u{31b}\u{303}"],["\u{48}\u{31b}\u{303}","\u{48}\u{31b}\u{303}","\u{48}\u{31b}\u{303}","\u{48}\u{31b}\u{303}"],["\u{128}\u{31b}","\u{49}\u{31b}\u{303}","\u{128}\u{31b}","\u{49}\u{31b}\u{303}"],["\u{4a}\u{31b}\u{303}","\u{4a}\u{31b}\u{303}","\u{4a}\u{31b}\u{303}","\u{4a}\u{31b}\u{303}"],["\u{4b}\u{31b}\u{303}","\u{4b}\u{31b}\u{303}","\u{4b}\u{31b}\u{303}","\u{4b}\u{31b}\u{303}"],["\u{4c}\u{31b}\u{303}","\u{4c}\u{31b}\u{303}","\u{4c}\u{31b}\u{303}","\u{4c}\u{31b}\u{303}"],["\u{4d}\u{31b}\u{303}","\u{4d}\u{31b}\u{303}","\u{4d}\u{31b}\u{303}","\u{4d}\u{31b}\u{303}"],["\u{d1}\u{31b}","\u{4e}\u{31b}\u{303}","\u{d1}\u{31b}","\u{4e}\u{31b}\u{303}"],["\u{1ee0}","\u{4f}\u{31b}\u{303}","\u{1ee0}","\u{4f}\u{31b}\u{303}"],["\u{50}\u{31b}\u{303}","\u{50}\u{31b}\u{303}","\u{50}\u{31b}\u{303}","\u{50}\u{31b}\u{303}"],["\u{51}\u{31b}\u{303}","\u{51}\u{31b}\u{303}","\u{51}\u{31b}\u{303}","\u{51}\u{31b}\u{303}"],["\u{52}\u{31b}\u{303}","\u{52}\u{31b}\u{303}","\u{52}\u{31b}\u{303}","\u{52}\u{31b}\u{303}"],["\u{53}\u{31b}\u{303}","\u{53}\u{31b}\u{303}","\u{53}\u{31b}\u{303}","\u{53}\u{31b}\u{303}"],["\u{54}\u{31b}\u{303}","\u{54}\u{31b}\u{303}","\u{54}\u{31b}\u{303}","\u{54}\u{31b}\u{303}"],["\u{1eee}","\u{55}\u{31b}\u{303}","\u{1eee}","\u{55}\u{31b}\u{303}"],["\u{1e7c}\u{31b}","\u{56}\u{31b}\u{303}","\u{1e7c}\u{31b}","\u{56}\u{31b}\u{303}"],["\u{57}\u{31b}\u{303}","\u{57}\u{31b}\u{303}","\u{57}\u{31b}\u{303}","\u{57}\u{31b}\u{303}"],["\u{58}\u{31b}\u{303}","\u{58}\u{31b}\u{303}","\u{58}\u{31b}\u{303}","\u{58}\u{31b}\u{303}"],["\u{1ef8}\u{31b}","\u{59}\u{31b}\u{303}","\u{1ef8}\u{31b}","\u{59}\u{31b}\u{303}"],["\u{5a}\u{31b}\u{303}","\u{5a}\u{31b}\u{303}","\u{5a}\u{31b}\u{303}","\u{5a}\u{31b}\u{303}"],["\u{5b}\u{31b}\u{303}","\u{5b}\u{31b}\u{303}","\u{5b}\u{31b}\u{303}","\u{5b}\u{31b}\u{303}"],["\u{5c}\u{31b}\u{303}","\u{5c}\u{31b}\u{303}","\u{5c}\u{31b}\u{303}","\u{5c}\u{31b}\u{303}"],["\u{5d}\u{31b}\u{303}","\u{5d}\u{31b}\u{303}","\u{5d}\u{31b}\u{303}","\u{5d}\u{31b}\u{303}"],["\u{5e}\u{31b}\u{303}","\u{5e}\u{31b}\u{303}","\u{5e}\u{31b}\u{303}","\u{5e}\u{31b}\u{303}"],["\u{5f}\u{31b}\u{303}","\u{5f}\u{31b}\u{303}","\u{5f}\u{31b}\u{303}","\u{5f}\u{31b}\u{303}"],["\u{60}\u{31b}\u{303}","\u{60}\u{31b}\u{303}","\u{60}\u{31b}\u{303}","\u{60}\u{31b}\u{303}"],["\u{e3}\u{31b}","\u{61}\u{31b}\u{303}","\u{e3}\u{31b}","\u{61}\u{31b}\u{303}"],["\u{62}\u{31b}\u{303}","\u{62}\u{31b}\u{303}","\u{62}\u{31b}\u{303}","\u{62}\u{31b}\u{303}"],["\u{63}\u{31b}\u{303}","\u{63}\u{31b}\u{303}","\u{63}\u{31b}\u{303}","\u{63}\u{31b}\u{303}"],["\u{64}\u{31b}\u{303}","\u{64}\u{31b}\u{303}","\u{64}\u{31b}\u{303}","\u{64}\u{31b}\u{303}"],["\u{1ebd}\u{31b}","\u{65}\u{31b}\u{303}","\u{1ebd}\u{31b}","\u{65}\u{31b}\u{303}"],["\u{66}\u{31b}\u{303}","\u{66}\u{31b}\u{303}","\u{66}\u{31b}\u{303}","\u{66}\u{31b}\u{303}"],["\u{67}\u{31b}\u{303}","\u{67}\u{31b}\u{303}","\u{67}\u{31b}\u{303}","\u{67}\u{31b}\u{303}"],["\u{68}\u{31b}\u{303}","\u{68}\u{31b}\u{303}","\u{68}\u{31b}\u{303}","\u{68}\u{31b}\u{303}"],["\u{129}\u{31b}","\u{69}\u{31b}\u{303}","\u{129}\u{31b}","\u{69}\u{31b}\u{303}"],["\u{6a}\u{31b}\u{303}","\u{6a}\u{31b}\u{303}","\u{6a}\u{31b}\u{303}","\u{6a}\u{31b}\u{303}"],["\u{6b}\u{31b}\u{303}","\u{6b}\u{31b}\u{303}","\u{6b}\u{31b}\u{303}","\u{6b}\u{31b}\u{303}"],["\u{6c}\u{31b}\u{303}","\u{6c}\u{31b}\u{303}","\u{6c}\u{31b}\u{303}","\u{6c}\u{31b}\u{303}"],["\u{6d}\u{31b}\u{303}","\u{6d}\u{31b}\u{303}","\u{6d}\u{31b}\u{303}","\u{6d}\u{31b}\u{303}"],["\u{f1}\u{31b}","\u{6e}\u{31b}\u{303}","\u{f1}\u{31b}","\u{6e}\u{31b}\u{303}"],["\u{1ee1}","\u{6f}\u{31b}\u{303}","\u{1ee1}","\u{6f}\u{31b}\u{303}"],["\u{70}\u{31b}\u{303}","\u{70}\u{31b}\u{303}","\u{70}\u{31b}\u{303}","\u{70}\u{31b}\u{303}"],["\u{71}\u{31b}\u{303}","\u{71}\u{31b}\u{303}","\u{71}\u{31b}\u{303}","\u{71}\u{31b}\u{303}"],["\u{72}\u{31b}\u{303}","\u{72}\u{31b}\u{303}","\u{72}\u{31b}\u{303}","\u{72}\u{31b}\u{303}"],["\u{73}\u{31b}\u{303}","\u{73}\u{31b}\u{303}","\u{73}\u{31b}\u{303}","\u{73}\u{31b}\u{303}"],["\u{74}\u{31b}\u{303}","\u{74}\u{31b}\u{303}","\u{74}\u{31b}\u{303}","\u{74}\u{31b}\u{303}"],["\u{1eef}","\u{75}\u{31b}\u{303}","\u{1eef}","\u{75}\u{31b}\u{303}"],["\u{1e7d}\u{31b}","\u{76}\u{31b}\u{303}","\u{1e7d}\u{31b}","\u{76}\u{31b}\u{303}"],["\u{77}\u{31b}\u{303}","\u{77}\u{31b}\u{303}","\u{77}\u{31b}\u{303}","\u{77}\u{31b}\u{303}"],["\u{78}\u{31b}\u{303}","\u{78}\u{31b}\u{303}","\u{78}\u{31b}\u{303}","\u{78}\u{31b}\u{303}"],["\u{1ef9}\u{31b}","\u{79}\u{31b}\u{303}","\u{1ef9}\u{31b}","\u{79}\u{31b}\u{303}"],["\u{7a}\u{31b}\u{303}","\u{7a}\u{31b}\u{303}","\u{7a}\u{31b}\u{303}","\u{7a}\u{31b}\u{303}"]],
[["\u{c3}\u{345}","\u{41}\u{303}\u{345}","\u{c3}\u{345}","\u{41}\u{303}\u{345}"],["\u{42}\u{303}\u{345}","\u{42}\u{303}\u{345}","\u{42}\u{303}\u{345}","\u{42}\u{303}\u{345}"],["\u{43}\u{303}\u{345}","\u{43}\u{303}\u{345}","\u{43}\u{303}\u{345}","\u{43}\u{303}\u{345}"],["\u{44}\u{303}\u{345}","\u{44}\u{303}\u{345}","\u{44}\u{303}\u{345}","\u{44}\u{303}\u{345}"],["\u{1ebc}\u{345}","\u{45}\u{303}\u{345}","\u{1ebc}\u{345}","\u{45}\u{303}\u{345}"],["\u{46}\u{303}\u{345}","\u{46}\u{303}\u{345}","\u{46}\u{303}\u{345}","\u{46}\u{303}\u{345}"],["\u{47}\u{303}\u{345}","\u{47}\u{303}\u{345}","\u{47}\u{303}\u{345}","\u{47}\u{303}\u{345}"],["\u{48}\u{303}\u{345}","\u{48}\u{303}\u{345}","\u{48}\u{303}\u{345}","\u{48}\u{303}\u{345}"],["\u{128}\u{345}","\u{49}\u{303}\u{345}","\u{128}\u{345}","\u{49}\u{303}\u{345}"],["\u{4a}\u{303}\u{345}","\u{4a}\u{303}\u{345}","\u{4a}\u{303}\u{345}","\u{4a}\u{303}\u{345}"],["\u{4b}\u{303}\u{345}","\u{4b}\u{303}\u{345}","\u{4b}\u{303}\u{345}","\u{4b}\u{303}\u{345}"],["\u{4c}\u{303}\u{345}","\u{4c}\u{303}\u{345}","\u{4c}\u{303}\u{345}","\u{4c}\u{303}\u{345}"],["\u{4d}\u{303}\u{345}","\u{4d}\u{303}\u{345}","\u{4d}\u{303}\u{345}","\u{4d}\u{303}\u{345}"],["\u{d1}\u{345}","\u{4e}\u{303}\u{345}","\u{d1}\u{345}","\u{4e}\u{303}\u{345}"],["\u{d5}\u{345}","\u{4f}\u{303}\u{345}","\u{d5}\u{345}","\u{4f}\u{303}\u{345}"],["\u{50}\u{303}\u{345}","\u{50}\u{303}\u{345}","\u{50}\u{303}\u{345}","\u{50}\u{303}\u{345}"],["\u{51}\u{303}\u{345}","\u{51}\u{303}\u{345}","\u{51}\u{303}\u{345}","\u{51}\u{303}\u{345}"],["\u{52}\u{303}\u{345}","\u{52}\u{303}\u{345}","\u{52}\u{303}\u{345}","\u{52}\u{303}\u{345}"],["\u{53}\u{303}\u{345}","\u{53}\u{303}\u{345}","\u{53}\u{303}\u{345}","\u{53}\u{303}\u{345}"],["\u{54}\u{303}\u{345}","\u{54}\u{303}\u{345}","\u{54}\u{303}\u{345}","\u{54}\u{303}\u{345}"],["\u{168}\u{345}","\u{55}\u{303}\u{345}","\u{168}\u{345}","\u{55}\u{303}\u{345}"],["\u{1e7c}\u{345}","\u{56}\u{303}\u{345}","\u{1e7c}\u{345}","\u{56}\u{303}\u{345}"],["\u{57}\u{303}\u{345}","\u{57}\u{303}\u{345}","\u{57}\u{303}\u{345}","\u{57}\u{303}\u{345}"],["\u{58}\u{303}\u{345}","\u{58}\u{303}\u{345}","\u{58}\u{303}\u{345}","\u{58}\u{303}\u{345}"],["\u{1ef8}\u{345}","\u{59}\u{303}\u{345}","\u{1ef8}\u{345}","\u{59}\u{303}\u{345}"],["\u{5a}\u{303}\u{345}","\u{5a}\u{303}\u{345}","\u{5a}\u{303}\u{345}","\u{5a}\u{303}\u{345}"],["\u{5b}\u{303}\u{345}","\u{5b}\u{303}\u{345}","\u{5b}\u{303}\u{345}","\u{5b}\u{303}\u{345}"],["\u{5c}\u{303}\u{345}","\u{5c}\u{303}\u{345}","\u{5c}\u{303}\u{345}","\u{5c}\u{303}\u{345}"],["\u{5d}\u{303}\u{345}","\u{5d}\u{303}\u{345}","\u{5d}\u{303}\u{345}","\u{5d}\u{303}\u{345}"],["\u{5e}\u{303}\u{345}","\u{5e}\u{303}\u{345}","\u{5e}\u{303}\u{345}","\u{5e}\u{303}\u{345}"],["\u{5f}\u{303}\u{345}","\u{5f}\u{303}\u{345}","\u{5f}\u{303}\u{345}","\u{5f}\u{303}\u{345}"],["\u{60}\u{303}\u{345}","\u{60}\u{303}\u{345}","\u{60}\u{303}\u{345}","\u{60}\u{303}\u{345}"],["\u{e3}\u{345}","\u{61}\u{303}\u{345}","\u{e3}\u{345}","\u{61}\u{303}\u{345}"],["\u{62}\u{303}\u{345}","\u{62}\u{303}\u{345}","\u{62}\u{303}\u{345}","\u{62}\u{303}\u{345}"],["\u{63}\u{303}\u{345}","\u{63}\u{303}\u{345}","\u{63}\u{303}\u{345}","\u{63}\u{303}\u{345}"],["\u{64}\u{303}\u{345}","\u{64}\u{303}\u{345}","\u{64}\u{303}\u{345}","\u{64}\u{303}\u{345}"],["\u{1ebd}\u{345}","\u{65}\u{303}\u{345}","\u{1ebd}\u{345}","\u{65}\u{303}\u{345}"],["\u{66}\u{303}\u{345}","\u{66}\u{303}\u{345}","\u{66}\u{303}\u{345}","\u{66}\u{303}\u{345}"],["\u{67}\u{303}\u{345}","\u{67}\u{303}\u{345}","\u{67}\u{303}\u{345}","\u{67}\u{303}\u{345}"],["\u{68}\u{303}\u{345}","\u{68}\u{303}\u{345}","\u{68}\u{303}\u{345}","\u{68}\u{303}\u{345}"],["\u{129}\u{345}","\u{69}\u{303}\u{345}","\u{129}\u{345}","\u{69}\u{303}\u{345}"],["\u{6a}\u{303}\u{345}","\u{6a}\u{303}\u{345}","\u{6a}\u{303}\u{345}","\u{6a}\u{303}\u{345}"],["\u{6b}\u{303}\u{345}","\u{6b}\u{303}\u{345}","\u{6b}\u{303}\u{345}","\u{6b}\u{303}\u{345}"],["\u{6c}\u{303}\u{345}","\u{6c}\u{303}\u{345}","\u{6c}\u{303}\u{345}","\u{6c}\u{303}\u{345}"],["\u{6d}\u{303}\u{345}","\u{6d}\u{303}\u{345}","\u{6d}\u{303}\u{345}","\u{6d}\u{303}\u{345}"],["\u{f1}\u{345}","\u{6e}\u{303}\u{345}","\u{f1}\u{345}","\u{6e}\u{303}\u{345}"],["\u{f5}\u{345}","\u{6f}\u{303}\u{345}","\u{f5}\u{345}","\u{6f}\u{303}\u{345}"],["\u{70}\u{303}\u{345}","\u{70}\u{303}\u{345}","\u{70}\u{303}\u{345}","\u{70}\u{303}\u{345}"],["\u{71}\u{303}\u{345}","\u{71}\u{303}\u{345}","\u{71}\u{303}\u{345}","\u{71}\u{303}\u{345}"],["\u{72}\u{303}\u{345}","\u{72}\u{303}\u{345}","\u{72}\u{303}\u{345}","\u{72}\u{303}\u{345}"],["\u{73}\u{303}\u{345}","\u{73}\u{303}\u{345}","\u{73}\u{303}\u{345}","\u{73}\u{303}\u{345}"],["\u{74}\u{303}\u{345}","\u{74}\u{303}\u{345}","\u{74}\u{303}\u{345}","\u{74}\u{303}\u{345}"],["\u{169}\u{345}","\u{75}\u{303}\u{345}","\u{169}\u{345}","\u{75}\u{303}\u{345}"],["\u{1e7d}\u{345}","\u{76}\u{303}\u{345}","\u{1e7d}\u{345}","\u{76}\u{303}\u{345}"],["\u{77}\u{303}\u{345}","\u{77}\u{303}\u{345}","\u{77}\u{303}\u{345}","\u{77}\u{303}\u{345}"],["\u{78}\u{303}\u{345}","\u{78}\u{303}\u{345}","\u{78}\u{303}\u{345}","\u{78}\u{303}\u{345}"],["\u{1ef9}\u{345}","\u{79}\u{303}\u{345}","\u{1ef9}\u{345}","\u{79}\u{303}\u{345}"],["\u{7a}\u{303}\u{345}","\u{7a}\u{303}\u{345}","\u{7a}\u{303}\u{345}","\u{7a}\u{303}\u{345}"]],
[["\u{c3}\u{20d2}","\u{41}\u{20d2}\u{303}","\u{c3}\u{20d2}","\u{41}\u{20d2}\u{303}"],["\u{42}\u{20d2}\u{303}","\u{42}\u{20d2}\u{303}","\u{42}\u{20d2}\u{303}","\u{42}\u{20d2}\u{303}"],["\u{43}\u{20d2}\u{303}","\u{43}\u{20d2}\u{303}","\u{43}\u{20d2}\u{303}","\u{43}\u{20d2}\u{303}"],["\u{44}\u{20d2}\u{303}","\u{44}\u{20d2}\u{303}","\u{44}\u{20d2}\u{303}","\u{44}\u{20d2}\u{303}"],["\u{1ebc}\u{20d2}","\u{45}\u{20d2}\u{303}","\u{1ebc}\u{20d2}","\u{45}\u{20d2}\u{303}"],["\u{46}\u{20d2}\u{303}","\u{46}\u{20d2}\u{303}","\u{46}\u{20d2}\u{303}","\u{46}\u{20d2}\u{303}"],["\u{47}\u{20d2}\u{303}","\u{47}\u{20d2}\u{303}","\u{47}\u{20d2}\u{303}","\u{47}\u{20d2}\u{303}"],["\u{48}\u{20d2}\u{303}","\u{48}\u{20d2}\u{303}","\u{48}\u{20d2}\u{303}","\u{48}\u{20d2}\u{303}"],["\u{128}\u{20d2}","\u{49}\u{20d2}\u{303}","\u{128}\u{20d2}","\u{49}\u{20d2}\u{303}"],["\u{4a}\u{20d2}\u{303}","\u{4a}\u{20d2}\u{303}","\u{4a}\u{20d2}\u{303}","\u{4a}\u{20d2}\u{303}"],["\u{4b}\u{20d2}\u{303}","\u{4b}\u{20d2}\u{303}","\u{4b}\u{20d2}\u{303}","\u{4b}\u{20d2}\u{303}"],["\u{4c}\u{20d2}\u{303}","\u{4c}\u{20d2}\u{303}","\u{4c}\u{20d2}\u{303}","\u{4c}\u{20d2}\u{303}"],["\u{4d}\u{20d2}\u{303}","\u{4d}\u{20d2}\u{303}","\u{4d}\u{20d2}\u{303}","\u{4d}\u{20d2}\u{303}"],["\u{d1}\u{20d2}","\u{4e}\u{20d2}\u{303}","\u{d1}\u{20d2}","\u{4e}\u{20d2}\u{303}"],["\u{d5}\u{20d2}","\u{4f}\u{20d2}\u{303}","\u{d5}\u{20d2}","\u{4f}\u{20d2}\u{303}"],["\u{50}\u{20d2}\u{303}","\u{50}\u{20d2}\u{303}","\u{50}\u{20d2}\u{303}","\u{50}\u{20d2}\u{303}"],["\u{51}\u{20d2}\u{303}","\u{51}\u{20d2}\u{303}","\u{51}\u{20d2}\u{303}","\u{51}\u{20d2}\u{303}"],["\u{52}\u{20d2}\u{303}","\u{52}\u{20d2}\u{303}","\u{52}\u{20d2}\u{303}","\u{52}\u{20d2}\u{303}"],["\u{53}\u{20d2}\u{303}","\u{53}\u{20d2}\u{303}","\u{53}\u{20d2}\u{303}","\u{53}\u{20d2}\u{303}"],["\u{54}\u{20d2}\u{303}","\u{54}\u{20d2}\u{303}","\u{54}\u{20d2}\u{303}","\u{54}\u{20d2}\u{303}"],["\u{168}\u{20d2}","\u{55}\u{20d2}\u{303}","\u{168}\u{20d2}","\u{55}\u{20d2}\u{303}"],["\u{1e7c}\u{20d2}","\u{56}\u{20d2}\u{303}","\u{1e7c}\u{20d2}","\u{56}\u{20d2}\u{303}"],["\u{57}\u{20d2}\u{303}","\u{57}\u{20d2}\u{303}","\u{57}\u{20d2}\u{303}","\u{57}\u{20d2}\u{303}"],["\u{58}\u{20d2}\u{303}","\u{58}\u{20d2}\u{303}","\u{58}\u{20d2}\u{303}","\u{58}\u{20d2}\u{303}"],["\u{1ef8}\u{20d2}","\u{59}\u{20d2}\u{303}","\u{1ef8}\u{20d2}","\u{59}\u{20d2}\u{303}"],["\u{5a}\u{20d2}\u{303}","\u{5a}\u{20d2}\u{303}","\u{5a}\u{20d2}\u{303}","\u{5a}\u{20d2}\u{303}"],["\u{5b}\u{20d2}\u{303}","\u{5b}\u{20d2}\u{303}","\u{5b}\u{20d2}\u{303}","\u{5b}\u{20d2}\u{303}"],["\u{5c}\u{20d2}\u{303}","\u{5c}\u{20d2}\u{303}","\u{5c}\u{20d2}\u{303}","\u{5c}\u{20d2}\u{303}"],["\u{5d}\u{20d2}\u{303}","\u{5d}\u{20d2}\u{303}","\u{5d}\u{20d2}\u{303}","\u{5d}\u{20d2}\u{303}"],["\u{5e}\u{20d2}\u{303}","\u{5e}\u{20d2}\u{303}","\u{5e}\u{20d2}\u{303}","\u{5e}\u{20d2}\u{303}"],["\u{5f}\u{20d2}\u{303}","\u{5f}\u{20d2}\u{303}","\u{5f}\u{20d2}\u{303}","\u{5f}\u{20d2}\u{303}"],["\u{60}\u{20d2}\u{303}","\u{60}\u{20d2}\u{303}","\u{60}\u{20d2}\u{303}","\u{60}\u{20d2}\u{303}"],["\u{e3}\u{20d2}","\u{61}\u{20d2}\u{303}","\u{e3}\u{20d2}","\u{61}\u{20d2}\u{303}"],["\u{62}\u{20d2}\u{303}","\u{62}\u{20d2}\u{303}","\u{62}\u{20d2}\u{303}","\u{62}\u{20d2}\u{303}"],["\u{63}\u{20d2}\u{303}","\u{63}\u{20d2}\u{303}","\u{63}\u{20d2}\u{303}","\u{63}\u{20d2}\u{303}"],["\u{64}\u{20d2}\u{303}","\u{64}\u{20d2}\u{303}","\u{64}\u{20d2}\u{303}","\u{64}\u{20d2}\u{303}"],["\u{1ebd}\u{20d2}","\u{65}\u{20d2}\u{303}","\u{1ebd}\u{20d2}","\u{65}\u{20d2}\u{303}"],["\u{66}\u{20d2}\u{303}","\u{66}\u{20d2}\u{303}","\u{66}\u{20d2}\u{303}","\u{66}\u{20d2}\u{303}"],["\u{67}\u{20d2}\u{303}","\u{67}\u{20d2}\u{303}","\u{67}\u{20d2}\u{303}","\u{67}\u{20d2}\u{303}"],["\u{68}\u{20d2}\u{303}","\u{68}\u{20d2}\u{303}","\u{68}\u{20d2}\u{303}","\u{68}\u{20d2}\u{303}"],["\u{129}\u{20d2}","\u{69}\u{20d2}\u{303}","\u{129}\u{20d2}","\u{69}\u{20d2}\u{303}"],["\u{6a}\u{20d2}\u{303}","\u{6a}\u{20d2}\u{303}","\u{6a}\u{20d2}\u{303}","\u{6a}\u{20d2}\u{303}"],["\u{6b}\u{20d2}\u{303}","\u{6b}\u{20d2}\u{303}","\u{6b}\u{20d2}\u{303}","\u{6b}\u{20d2}\u{303}"],["\u{6c}\u{20d2}\u{303}","\u{6c}\u{20d2}\u{303}","\u{6c}\u{20d2}\u{303}","\u{6c}\u{20d2}\u{303}"],["\u{6d}\u{20d2}\u{303}","\u{6d}\u{20d2}\u{303}","\u{6d}\u{20d2}\u{303}","\u{6d}\u{20d2}\u{303}"],["\u{f1}\u{20d2}","\u{6e}\u{20d2}\u{303}","\u{f1}\u{20d2}","\u{6e}\u{20d2}\u{303}"],["\u{f5}\u{20d2}","\u{6f}\u{20d2}\u{303}","\u{f5}\u{20d2}","\u{6f}\u{20d2}\u{303}"],["\u{70}\u{20d2}\u{303}","\u{70}\u{20d2}\u{303}","\u{70}\u{20d2}\u{303}","\u{70}\u{20d2}\u{303}"],["\u{71}\u{20d2}\u{303}","\u{71}\u{20d2}\u{303}","\u{71}\u{20d2}\u{303}","\u{71}\u{20d2}\u{303}"],["\u{72}\u{20d2}\u{303}","\u{72}\u{20d2}\u{303}","\u{72}\u{20d2}\u{303}","\u{72}\u{20d2}\u{303}"],["\u{73}\u{20d2}\u{303}","\u{73}\u{20d2}\u{303}","\u{73}\u{20d2}\u{303}","\u{73}\u{20d2}\u{303}"],["\u{74}\u{20d2}\u{303}","\u{74}\u{20d2}\u{303}","\u{74}\u{20d2}\u{303}","\u{74}\u{20d2}\u{303}"],["\u{169}\u{20d2}","\u{75}\u{20d2}\u{303}","\u{169}\u{20d2}","\u{75}\u{20d2}\u{303}"],["\u{1e7d}\u{20d2}","\u{76}\u{20d2}\u{303}","\u{1e7d}\u{20d2}","\u{76}\u{20d2}\u{303}"],["\u{77}\u{20d2}\u{303}","\u{77}\u{20d2}\u{303}","\u{77}\u{20d2}\u{303}","\u{77}\u{20d2}\u{303}"],["\u{78}\u{20d2}\u{303}","\u{78}\u{20d2}\u{303}","\u{78}\u{20d2}\u{303}","\u{78}\u{20d2}\u{303}"],["\u{1ef9}\u{20d2}","\u{79}\u{20d2}\u{303}","\u{1ef9}\u{20d2}","\u{79}\u{20d2}\u{303}"],["\u{7a}\u{20d2}\u{303}","\u{7a}\u{20d2}\u{303}","\u{7a}\u{20d2}\u{303}","\u{7a}\u{20d2}\u{303}"]],
[["\u{c4}\u{300}","\u{41}\u{308}\u{300}","\u{c4}\u{300}","\u{41}\u{308}\u{300}"],["\u{42}\u{308}\u{300}","\u{42}\u{308}\u{300}","\u{42}\u{308}\u{300}","\u{42}\u{308}\u{300}"],["\u{43}\u{308}\u{300}","\u{43}\u{308}\u{300}","\u{43}\u{308}\u{300}","\u{43}\u{308}\u{300}"],["\u{44}\u{308}\u{300}","\u{44}\u{308}\u{300}","\u{44}\u{308}\u{300}","\u{44}\u{308}\u{300}"],["\u{cb}\u{300}","\u{45}\u{308}\u{300}","\u{cb}\u{300}","\u{45}\u{308}\u{300}"],["\u{46}\u{308}\u{300}","\u{46}\u{308}\u{300}","\u{46}\u{308}\u{300}","\u{46}\u{308}\u{300}"],["\u{47}\u{308}\u{300}","\u{47}\u{308}\u{300}","\u{47}\u{308}\u{300}","\u{47}\u{308}\u{300}"],["\u{1e26}\u{300}","\u{48}\u{308}\u{300}","\u{1e26}\u{300}","\u{48}\u{308}\u{300}"],["\u{cf}\u{300}","\u{49}\u{308}\u{300}","\u{cf}\u{300}","\u{49}\u{308}\u{300}"],["\u{4a}\u{308}\u{300}","\u{4a}\u{308}\u{300}","\u{4a}\u{308}\u{300}","\u{4a}\u{308}\u{300}"],["\u{4b}\u{308}\u{300}","\u{4b}\u{308}\u{300}","\u{4b}\u{308}\u{300}","\u{4b}\u{308}\u{300}"],["\u{4c}\u{308}\u{300}","\u{4c}\u{308}\u{300}","\u{4c}\u{308}\u{300}","\u{4c}\u{308}\u{300}"],["\u{4d}\u{308}\u{300}","\u{4d}\u{308}\u{300}","\u{4d}\u{308}\u{300}","\u{4d}\u{308}\u{300}"],["\u{4e}\u{308}\u{300}","\u{4e}\u{308}\u{300}","\u{4e}\u{308}\u{300}","\u{4e}\u{308}\u{300}"],["\u{d6}\u{300}","\u{4f}\u{308}\u{300}","\u{d6}\u{300}","\u{4f}\u{308}\u{300}"],["\u{50}\u{308}\u{300}","\u{50}\u{308}\u{300}","\u{50}\u{308}\u{300}","\u{50}\u{308}\u{300}"],["\u{51}\u{308}\u{300}","\u{51}\u{308}\u{300}","\u{51}\u{308}\u{300}","\u{51}\u{308}\u{300}"],["\u{52}\u{308}\u{300}","\u{52}\u{308}\u{300}","\u{52}\u{308}\u{300}","\u{52}\u{308}\u{300}"],["\u{53}\u{308}\u{300}","\u{53}\u{308}\u{300}","\u{53}\u{308}\u{300}","\u{53}\u{308}\u{300}"],["\u{54}\u{308}\u{300}","\u{54}\u{308}\u{300}","\u{54}\u{308}\u{300}","\u{54}\u{308}\u{300}"],["\u{1db}","\u{55}\u{308}\u{300}","\u{1db}","\u{55}\u{308}\u{300}"],["\u{56}\u{308}\u{300}","\u{56}\u{308}\u{300}","\u{56}\u{308}\u{300}","\u{56}\u{308}\u{300}"],["\u{1e84}\u{300}","\u{57}\u{308}\u{300}","\u{1e84}\u{300}","\u{57}\u{308}\u{300}"],["\u{1e8c}\u{300}","\u{58}\u{308}\u{300}","\u{1e8c}\u{300}","\u{58}\u{308}\u{300}"],["\u{178}\u{300}","\u{59}\u{308}\u{300}","\u{178}\u{300}","\u{59}\u{308}\u{300}"],["\u{5a}\u{308}\u{300}","\u{5a}\u{308}\u{300}","\u{5a}\u{308}\u{300}","\u{5a}\u{308}\u{300}"],["\u{5b}\u{308}\u{300}","\u{5b}\u{308}\u{300}","\u{5b}\u{308}\u{300}","\u{5b}\u{308}\u{300}"],["\u{5c}\u{308}\u{300}","\u{5c}\u{308}\u{300}","\u{5c}\u{308}\u{300}","\u{5c}\u{308}\u{300}"],["\u{5d}\u{308}\u{300}","\u{5d}\u{308}\u{300}","\u{5d}\u{308}\u{300}","\u{5d}\u{308}\u{300}"],["\u{5e}\u{308}\u{300}","\u{5e}\u{308}\u{300}","\u{5e}\u{308}\u{300}","\u{5e}\u{308}\u{300}"],["\u{5f}\u{308}\u{300}","\u{5f}\u{308}\u{300}","\u{5f}\u{308}\u{300}","\u{5f}\u{308}\u{300}"],["\u{60}\u{308}\u{300}","\u{60}\u{308}\u{300}","\u{60}\u{308}\u{300}","\u{60}\u{308}\u{300}"],["\u{e4}\u{300}","\u{61}\u{308}\u{300}","\u{e4}\u{300}","\u{61}\u{308}\u{300}"],["\u{62}\u{308}\u{300}","\u{62}\u{308}\u{300}","\u{62}\u{308}\u{300}","\u{62}\u{308}\u{300}"],["\u{63}\u{308}\u{300}","\u{63}\u{308}\u{300}","\u{63}\u{308}\u{300}","\u{63}\u{308}\u{300}"],["\u{64}\u{308}\u{300}","\u{64}\u{308}\u{300}","\u{64}\u{308}\u{300}","\u{64}\u{308}\u{300}"],["\u{eb}\u{300}","\u{65}\u{308}\u{300}","\u{eb}\u{300}","\u{65}\u{308}\u{300}"],["\u{66}\u{308}\u{300}","\u{66}\u{308}\u{300}","\u{66}\u{308}\u{300}","\u{66}\u{308}\u{300}"],["\u{67}\u{308}\u{300}","\u{67}\u{308}\u{300}","\u{67}\u{308}\u{300}","\u{67}\u{308}\u{300}"],["\u{1e27}\u{300}","\u{68}\u{308}\u{300}","\u{1e27}\u{300}","\u{68}\u{308}\u{300}"],["\u{ef}\u{300}","\u{69}\u{308}\u{300}","\u{ef}\u{300}","\u{69}\u{308}\u{300}"],["\u{6a}\u{308}\u{300}","\u{6a}\u{308}\u{300}","\u{6a}\u{308}\u{300}","\u{6a}\u{308}\u{300}"],["\u{6b}\u{308}\u{300}","\u{6b}\u{308}\u{300}","\u{6b}\u{308}\u{300}","\u{6b}\u{308}\u{300}"],["\u{6c}\u{308}\u{300}","\u{6c}\u{308}\u{300}","\u{6c}\u{308}\u{300}","\u{6c}\u{308}\u{300}"],["\u{6d}\u{308}\u{300}","\u{6d}\u{308}\u{300}","\u{6d}\u{308}\u{300}","\u{6d}\u{308}\u{300}"],["\u{6e}\u{308}\u{300}","\u{6e}\u{308}\u{300}","\u{6e}\u{308}\u{300}","\u{6e}\u{308}\u{300}"],["\u{f6}\u{300}","\u{6f}\u{308}\u{300}","\u{f6}\u{300}","\u{6f}\u{308}\u{300}"],["\u{70}\u{308}\u{300}","\u{70}\u{308}\u{300}","\u{70}\u{308}\u{300}","\u{70}\u{308}\u{300}"],["\u{71}\u{308}\u{300}","\u{71}\u{308}\u{300}","\u{71}\u{308}\u{300}","\u{71}\u{308}\u{300}"],["\u{72}\u{308}\u{300}","\u{72}\u{308}\u{300}","\u{72}\u{308}\u{300}","\u{72}\u{308}\u{300}"],["\u{73}\u{308}\u{300}","\u{73}\u{308}\u{300}","\u{73}\u{308}\u{300}","\u{73}\u{308}\u{300}"],["\u{1e97}\u{300}","\u{74}\u{308}\u{300}","\u{1e97}\u{300}","\u{74}\u{308}\u{300}"],["\u{1dc}","\u{75}\u{308}\u{300}","\u{1dc}","\u{75}\u{308}\u{300}"],["\u{76}\u{308}\u{300}","\u{76}\u{308}\u{300}","\u{76}\u{308}\u{300}","\u{76}\u{308}\u{300}"],["\u{1e85}\u{300}","\u{77}\u{308}\u{300}","\u{1e85}\u{300}","\u{77}\u{308}\u{300}"],["\u{1e8d}\u{300}","\u{78}\u{308}\u{300}","\u{1e8d}\u{300}","\u{78}\u{308}\u{300}"],["\u{ff}\u{300}","\u{79}\u{308}\u{300}","\u{ff}\u{300}","\u{79}\u{308}\u{300}"],["\u{7a}\u{308}\u{300}","\u{7a}\u{308}\u{300}","\u{7a}\u{308}\u{300}","\u{7a}\u{308}\u{300}"]],
[["\u{c4}\u{301}","\u{41}\u{308}\u{301}","\u{c4}\u{301}","\u{41}\u{308}\u{301}"],["\u{42}\u{308}\u{301}","\u{42}\u{308}\u{301}","\u{42}\u{308}\u{301}","\u{42}\u{308}\u{301}"],["\u{43}\u{308}\u{301}","\u{43}\u{308}\u{301}","\u{43}\u{308}\u{301}","\u{43}\u{308}\u{301}"],["\u{44}\u{308}\u{301}","\u{44}\u{308}\u{301}","\u{44}\u{308}\u{301}","\u{44}\u{308}\u{301}"],["\u{cb}\u{301}","\u{45}\u{308}\u{301}","\u{cb}\u{301}","\u{45}\u{308}\u{301}"],["\u{46}\u{308}\u{301}","\u{46}\u{308}\u{301}","\u{46}\u{308}\u{301}","\u{46}\u{308}\u{301}"],["\u{47}\u{308}\u{301}","\u{47}\u{308}\u{301}","\u{47}\u{308}\u{301}","\u{47}\u{308}\u{301}"],["\u{1e26}\u{301}","\u{48}\u{308}\u{301}","\u{1e26}\u{301}","\u{48}\u{308}\u{301}"],["\u{1e2e}","\u{49}\u{308}\u{301}","\u{1e2e}","\u{49}\u{308}\u{301}"],["\u{4a}\u{308}\u{301}","\u{4a}\u{308}\u{301}","\u{4a}\u{308}\u{301}","\u{4a}\u{308}\u{301}"],["\u{4b}\u{308}\u{301}","\u{4b}\u{308}\u{301}","\u{4b}\u{308}\u{301}","\u{4b}\u{308}\u{301}"],["\u{4c}\u{308}\u{301}","\u{4c}\u{308}\u{301}","\u{4c}\u{308}\u{301}","\u{4c}\u{308}\u{301}"],["\u{4d}\u{308}\u{301}","\u{4d}\u{308}\u{301}","\u{4d}\u{308}\u{301}","\u{4d}\u{308}\u{301}"],["\u{4e}\u{308}\u{301}","\u{4e}\u{308}\u{301}","\u{4e}\u{308}\u{301}","\u{4e}\u{308}\u{301}"],["\u{d6}\u{301}","\u{4f}\u{308}\u{301}","\u{d6}\u{301}","\u{4f}\u{308}\u{301}"],["\u{50}\u{308}\u{301}","\u{50}\u{308}\u{301}","\u{50}\u{308}\u{301}","\u{50}\u{308}\u{301}"],["\u{51}\u{308}\u{301}","\u{51}\u{308}\u{301}","\u{51}\u{308}\u{301}","\u{51}\u{308}\u{301}"],["\u{52}\u{308}\u{301}","\u{52}\u{308}\u{301}","\u{52}\u{308}\u{301}","\u{52}\u{308}\u{301}"],["\u{53}\u{308}\u{301}","\u{53}\u{308}\u{301}","\u{53}\u{308}\u{301}","\u{53}\u{308}\u{301}"],["\u{54}\u{308}\u{301}","\u{54}\u{308}\u{301}","\u{54}\u{308}\u{301}","\u{54}\u{308}\u{301}"],["\u{1d7}","\u{55}\u{308}\u{301}","\u{1d7}","\u{55}\u{308}\u{301}"],["\u{56}\u{308}\u{301}","\u{56}\u{308}\u{301}","\u{56}\u{308}\u{301}","\u{56}\u{308}\u{301}"],["\u{1e84}\u{301}","\u{57}\u{308}\u{301}","\u{1e84}\u{301}","\u{57}\u{308}\u{301}"],["\u{1e8c}\u{301}","\u{58}\u{308}\u{301}","\u{1e8c}\u{301}","\u{58}\u{308}\u{301}"],["\u{178}\u{301}","\u{59}\u{308}\u{301}","\u{178}\u{301}","\u{59}\u{308}\u{301}"],["\u{5a}\u{308}\u{301}","\u{5a}\u{308}\u{301}","\u{5a}\u{308}\u{301}","\u{5a}\u{308}\u{301}"],["\u{5b}\u{308}\u{301}","\u{5b}\u{308}\u{301}","\u{5b}\u{308}\u{301}","\u{5b}\u{308}\u{301}"],["\u{5c}\u{308}\u{301}","\u{5c}\u{308}\u{301}","\u{5c}\u{308}\u{301}","\u{5c}\u{308}\u{301}"],["\u{5d}\u{308}\u{301}","\u{5d}\u{308}\u{301}","\u{5d}\u{308}\u{301}","\u{5d}\u{308}\u{301}"],["\u{5e}\u{308}\u{301}","\u{5e}\u{308}\u{301}","\u{5e}\u{308}\u{301}","\u{5e}\u{308}\u{301}"],["\u{5f}\u{308}\u{301}","\u{5f}\u{308}\u{301}","\u{5f}\u{308}\u{301}","\u{5f}\u{308}\u{301}"],["\u{60}\u{308}\u{301}","\u{60}\u{308}\u{301}","\u{60}\u{308}\u{301}","\u{60}\u{308}\u{301}"],["\u{e4}\u{301}","\u{61}\u{308}\u{301}","\u{e4}\u{301}","\u{61}\u{308}\u{301}"],["\u{62}\u{308}\u{301}","\u{62}\u{308}\u{301}","\u{62}\u{308}\u{301}","\u{62}\u{308}\u{301}"],["\u{63}\u{308}\u{301}","\u{63}\u{308}\u{301}","\u{63}\u{308}\u{301}","\u{63}\u{308}\u{301}"],["\u{64}\u{308}\u{301}","\u{64}\u{308}\u{301}","\u{64}\u{308}\u{301}","\u{64}\u{308}\u{301}"],["\u{eb}\u{301}","\u{65}\u{308}\u{301}","\u{eb}\u{301}","\u{65}\u{308}\u{301}"],["\u{66}\u{308}\u{301}","\u{66}\u{308}\u{301}","\u{66}\u{308}\u{301}","\u{66}\u{308}\u{301}"],["\u{67}\u{308}\u{301}","\u{67}\u{308}\u{301}","\u{67}\u{308}\u{301}","\u{67}\u{308}\u{301}"],["\u{1e27}\u{301}","\u{68}\u{308}\u{301}","\u{1e27}\u{301}","\u{68}\u{308}\u{301}"],["\u{1e2f}","\u{69}\u{308}\u{301}","\u{1e2f}","\u{69}\u{308}\u{301}"],["\u{6a}\u{308}\u{301}","\u{6a}\u{308}\u{301}","\u{6a}\u{308}\u{301}","\u{6a}\u{308}\u{301}"],["\u{6b}\u{308}\u{301}","\u{6b}\u{308}\u{301}","\u{6b}\u{308}\u{301}","\u{6b}\u{308}\u{301}"],["\u{6c}\u{308}\u{301}","\u{6c}\u{308}\u{301}","\u{6c}\u{308}\u{301}","\u{6c}\u{308}\u{301}"],["\u{6d}\u{308}\u{301}","\u{6d}\u{308}\u{301}","\u{6d}\u{308}\u{301}","\u{6d}\u{308}\u{301}"],["\u{6e}\u{308}\u{301}","\u{6e}\u{308}\u{301}","\u{6e}\u{308}\u{301}","\u{6e}\u{308}\u{301}"],["\u{f6}\u{301}","\u{6f}\u{308}\u{301}","\u{f6}\u{301}","\u{6f}\u{308}\u{301}"],["\u{70}\u{308}\u{301}","\u{70}\u{308}\u{301}","\u{70}\u{308}\u{301}","\u{70}\u{308}\u{301}"],["\u{71}\u{308}\u{301}","\u{71}\u{308}\u{301}","\u{71}\u{308}\u{301}","\u{71}\u{308}\u{301}"],["\u{72}\u{308}\u{301}","\u{72}\u{308}\u{301}","\u{72}\u{308}\u{301}","\u{72}\u{308}\u{301}"],["\u{73}\u{308}\u{301}","\u{73}\u{308}\u{301}","\u{73}\u{308}\u{301}","\u{73}\u{308}\u{301}"],["\u{1e97}\u{301}","\u{74}\u{308}\u{301}","\u{1e97}\u{301}","\u{74}\u{308}\u{301}"],["\u{1d8}","\u{75}\u{308}\u{301}","\u{1d8}","\u{75}\u{308}\u{301}"],["\u{76}\u{308}\u{301}","\u{76}\u{308}\u{301}","\u{76}\u{308}\u{301}","\u{76}\u{308}\u{301}"],["\u{1e85}\u{301}","\u{77}\u{308}\u{301}","\u{1e85}\u{301}","\u{77}\u{308}\u{301}"],["\u{1e8d}\u{301}","\u{78}\u{308}\u{301}","\u{1e8d}\u{301}","\u{78}\u{308}\u{301}"],["\u{ff}\u{301}","\u{79}\u{308}\u{301}","\u{ff}\u{301}","\u{79}\u{308}\u{301}"],["\u{7a}\u{308}\u{301}","\u{7a}\u{308}\u{301}","\u{7a}\u{308}\u{301}","\u{7a}\u{308}\u{301}"]],
[["\u{c4}\u{302}","\u{41}\u{308}\u{302}","\u{c4}\u{302}","\u{41}\u{308}\u{302}"],["\u{42}\u{308}\u{302}","\u{42}\u{308}\u{302}","\u{42}\u{308}\u{302}","\u{42}\u{308}\u{302}"],["\u{43}\u{308}\u{302}","\u{43}\u{308}\u{302}","\u{43}\u{308}\u{302}","\u{43}\u{308}\u{302}"],["\u{44}\u{308}\u{302}","\u{44}\u{308}\u{302}","\u{44}\u{308}\u{302}","\u{44}\u{308}\u{302}"],["\u{cb}\u{302}","\u{45}\u{308}\u{302}","\u{cb}\u{302}","\u{45}\u{308}\u{302}"],["\u{46}\u{308}\u{302}","\u{46}\u{308}\u{302}","\u{46}\u{308}\u{302}","\u{46}\u{308}\u{302}"],["\u{47}\u{308}\u{302}","\u{47}\u{308}\u{302}","\u{47}\u{308}\u{302}","\u{47}\u{308}\u{302}"],["\u{1e26}\u{302}","\u{48}\u{308}\u{302}","\u{1e26}\u{302}","\u{48}\u{308}\u{302}"],["\u{cf}\u{302}","\u{49}\u{308}\u{302}","\u{cf}\u{302}","\u{49}\u{308}\u{302}"],["\u{4a}\u{308}\u{302}","\u{4a}\u{308}\u{302}","\u{4a}\u{308}\u{302}","\u{4a}\u{308}\u{302}"],["\u{4b}\u{308}\u{302}","\u{4b}\u{308}\u{302}","\u{4b}\u{308}\u{302}","\u{4b}\u{308}\u{302}"],["\u{4c}\u{308}\u{302}","\u{4c}\u{308}\u{302}","\u{4c}\u{308}\u{302}","\u{4c}\u{308}\u{302}"],["\u{4d}\u{308}\u{302}","\u{4d}\u{308}\u{302}","\u{4d}\u{308}\u{302}","\u{4d}\u{308}\u{302}"],["\u{4e}\u{308}\u{302}","\u{4e}\u{308}\u{302}","\u{4e}\u{308}\u{302}","\u{4e}\u{308}\u{302}"],["\u{d6}\u{302}","\u{4f}\u{308}\u{302}","\u{d6}\u{302}","\u{4f}\u{308}\u{302}"],["\u{50}\u{308}\u{302}","\u{50}\u{308}\u{302}","\u{50}\u{308}\u{302}","\u{50}\u{308}\u{302}"],["\u{51}\u{308}\u{302}","\u{51}\u{308}\u{302}","\u{51}\u{308}\u{302}","\u{51}\u{308}\u{302}"],["\u{52}\u{308}\u{302}","\u{52}\u{308}\u{302}","\u{52}\u{308}\u{302}","\u{52}\u{308}\u{302}"],["\u{53}\u{308}\u{302}","\u{53}\u{308}\u{302}","\u{53}\u{308}\u{302}","\u{53}\u{308}\u{302}"],["\u{54}\u{308}\u{302}","\u{54}\u{308}\u{302}","\u{54}\u{308}\u{302}","\u{54}\u{308}\u{302}"],["\u{dc}\u{302}","\u{55}\u{308}\u{302}","\u{dc}\u{302}","\u{55}\u{308}\u{302}"],["\u{56}\u{308}\u{302}","\u{56}\u{308}\u{302}","\u{56}\u{308}\u{302}","\u{56}\u{308}\u{302}"],["\u{1e84}\u{302}","\u{57}\u{308}\u{302}","\u{1e84}\u{302}","\u{57}\u{308}\u{302}"],["\u{1e8c}\u{302}","\u{58}\u{308}\u{302}","\u{1e8c}\u{302}","\u{58}\u{308}\u{302}"],["\u{178}\u{302}","\u{59}\u{308}\u{302}","\u{178}\u{302}","\u{59}\u{308}\u{302}"],["\u{5a}\u{308}\u{302}","\u{5a}\u{308}\u{302}","\u{5a}\u{308}\u{302}","\u{5a}\u{308}\u{302}"],["\u{5b}\u{308}\u{302}","\u{5b}\u{308}\u{302}","\u{5b}\u{308}\u{302}","\u{5b}\u{308}\u{302}"],["\u{5c}\u{308}\u{302}","\u{5c}\u{308}\u{302}","\u{5c}\u{308}\u{302}","\u{5c}\u{308}\u{302}"],["\u{5d}\u{308}\u{302}","\u{5d}\u{308}\u{302}","\u{5d}\u{308}\u{302}","\u{5d}\u{308}\u{302}"],["\u{5e}\u{308}\u{302}","\u{5e}\u{308}\u{302}","\u{5e}\u{308}\u{302}","\u{5e}\u{308}\u{302}"],["\u{5f}\u{308}\u{302}","\u{5f}\u{308}\u{302}","\u{5f}\u{308}\u{302}","\u{5f}\u{308}\u{302}"],["\u{60}\u{308}\u{302}","\u{60}\u{308}\u{302}","\u{60}\u{308}\u{302}","\u{60}\u{308}\u{302}"],["\u{e4}\u{302}","\u{61}\u{308}\u{302}","\u{e4}\u{302}","\u{61}\u{308}\u{302}"],["\u{62}\u{308}\u{302}","\u{62}\u{308}\u{302}","\u{62}\u{308}\u{302}","\u{62}\u{308}\u{302}"],["\u{63}\u{308}\u{302}","\u{63}\u{308}\u{302}","\u{63}\u{308}\u{302}","\u{63}\u{308}\u{302}"],["\u{64}\u{308}\u{302}","\u{64}\u{308}\u{302}","\u{64}\u{308}\u{302}","\u{64}\u{308}\u{302}"],["\u{eb}\u{302}","\u{65}\u{308}\u{302}","\u{eb}\u{302}","\u{65}\u{308}\u{302}"],["\u{66}\u{308}\u{302}","\u{66}\u{308}\u{302}","\u{66}\u{308}\u{302}","\u{66}\u{308}\u{302}"],["\u{67}\u{308}\u{302}","\u{67}\u{308}\u{302}","\u{67}\u{308}\u{302}","\u{67}\u{308}\u{302}"],["\u{1e27}\u{302}","\u{68}\u{308}\u{302}","\u{1e27}\u{302}","\u{68}\u{308}\u{302}"],["\u{ef}\u{302}","\u{69}\u{308}\u{302}","\u{ef}\u{302}","\u{69}\u{308}\u{302}"],["\u{6a}\u{308}\u{302}","\u{6a}\u{308}\u{302}","\u{6a}\u{308}\u{302}","\u{6a}\u{308}\u{302}"],["\u{6b}\u{308}\u{302}","\u{6b}\u{308}\u{302}","\u{6b}\u{308}\u{302}","\u{6b}\u{308}\u{302}"],["\u{6c}\u{308}\u{302}","\u{6c}\u{308}\u{302}","\u{6c}\u{308}\u{302}","\u{6c}\u{308}\u{302}"],["\u{6d}\u{308}\u{302}","\u{6d}\u{308}\u{302}","\u{6d}\u{308}\u{302}","\u{6d}\u{308}\u{302}"],["\u{6e}\u{308}\u{302}","\u{6e}\u{308}\u{302}","\u{6e}\u{308}\u{302}","\u{6e}\u{308}\u{302}"],["\u{f6}\u{302}","\u{6f}\u{308}\u{302}","\u{f6}\u{302}","\u{6f}\u{308}\u{302}"],["\u{70}\u{308}\u{302}","\u{70}\u{308}\u{302}","\u{70}\u{308}\u{302}","\u{70}\u{308}\u{302}"],["\u{71}\u{308}\u{302}","\u{71}\u{308}\u{302}","\u{71}\u{308}\u{302}","\u{71}\u{308}\u{302}"],["\u{72}\u{308}\u{302}","\u{72}\u{308}\u{302}","\u{72}\u{308}\u{302}","\u{72}\u{308}\u{302}"],["\u{73}\u{308}\u{302}","\u{73}\u{308}\u{302}","\u{73}\u{308}\u{302}","\u{73}\u{308}\u{302}"],["\u{1e97}\u{302}","\u{74}\u{308}\u{302}","\u{1e97}\u{302}","\u{74}\u{308}\u{302}"],["\u{fc}\u{302}","\u{75}\u{308}\u{302}","\u{fc}\u{302}","\u{75}\u{308}\u{302}"],["\u{76}\u{308}\u{302}","\u{76}\u{308}\u{302}","\u{76}\u{308}\u{302}","\u{76}\u{308}\u{302}"],["\u{1e85}\u{302}","\u{77}\u{308}\u{302}","\u{1e85}\u{302}","\u{77}\u{308}\u{302}"],["\u{1e8d}\u{302}","\u{78}\u{308}\u{302}","\u{1e8d}\u{302}","\u{78}\u{308}\u{302}"],["\u{ff}\u{302}","\u{79}\u{308}\u{302}","\u{ff}\u{302}","\u{79}\u{308}\u{302}"],["\u{7a}\u{308}\u{302}","\u{7a}\u{308}\u{302}","\u{7a}\u{308}\u{302}","\u{7a}\u{308}\u{302}"]],
[["\u{c4}\u{303}","\u{41}\u{308}\u{303}","\u{c4}\u{303}","\u{41}\u{308}\u{303}"],["\u{42}\u{308}\u{303}","\u{42}\u{308}\u{303}","\u{42}\u{308}\u{303}","\u{42}\u{308}\u{303}"],["\u{43}\u{308}\u{303}","\u{43}\u{308}\u{303}","\u{43}\u{308}\u{303}","\u{43}\u{308}\u{303}"],["\u{44}\u{308}\u{303}","\u{44}\u{308}\u{303}","\u{44}\u{308}\u{303}","\u{44}\u{308}\u{303}"],["\u{cb}\u{303}","\u{45}\u{308}\u{303}","\u{cb}\u{303}","\u{45}\u{308}\u{303}"],["\u{46}\u{308}\u{303}","\u{46}\u{308}\u{303}","\u{46}\u{308}\u{303}","\u{46}\u{308}\u{303}"],["\u{47}\u{308}\u{303}","\u{47}\u{308}\u{303}","\u{47}\u{308}\u{303}","\u{47}\u{308}\u{303}"],["\u{1e26}\u{303}","\u{48}\u{308}\u{303}","\u{1e26}\u{303}","\u{48}\u{308}\u{303}"],["\u{cf}\u{303}","\u{49}\u{308}\u{303}","\u{cf}\u{303}","\u{49}\u{308}\u{303}"],["\u{4a}\u{308}\u{303}","\u{4a}\u{308}\u{303}","\u{4a}\u{308}\u{303}","\u{4a}\u{308}\u{303}"],["\u{4b}\u{308}\u{303}","\u{4b}\u{308}\u{303}","\u{4b}\u{308}\u{303}","\u{4b}\u{308}\u{303}"],["\u{4c}\u{308}\u{303}","\u{4c}\u{308}\u{303}","\u{4c}\u{308}\u{303}","\u{4c}\u{308}\u{303}"],["\u{4d}\u{308}\u{303}","\u{4d}\u{308}\u{303}","\u{4d}\u{308}\u{303}","\u{4d}\u{308}\u{303}"],["\u{4e}\u{308}\u{303}","\u{4e}\u{308}\u{303}","\u{4e}\u{308}\u{303}","\u{4e}\u{308}\u{303}"],["\u{d6}\u{303}","\u{4f}\u{308}\u{303}","\u{d6}\u{303}","\u{4f}\u{308}\u{303}"],["\u{50}\u{308}\u{303}","\u{50}\u{308}\u{303}","\u{50}\u{308}\u{303}","\u{50}\u{308}\u{303}"],["\u{51}\u{308}\u{303}","\u{51}\u{308}\u{303}","\u{51}\u{308}\u{303}","\u{51}\u{308}\u{303}"],["\u{52}\u{308}\u{303}","\u{52}\u{308}\u{303}","\u{52}\u{308}\u{303}","\u{52}\u{308}\u{303}"],["\u{53}\u{308}\u{303}","\u{53}\u{308}\u{303}","\u{53}\u{308}\u{303}","\u{53}\u{308}\u{303}"],["\u{54}\u{308}\u{303}","\u{54}\u{308}\u{303}","\u{54}\u{308}\u{303}","\u{54}\u{308}\u{303}"],["\u{dc}\u{303}","\u{55}\u{308}\u{303}","\u{dc}\u{303}","\u{55}\u{308}\u{303}"],["\u{56}\u{308}\u{303}","\u{56}\u{308}\u{303}","\u{56}\u{308}\u{303}","\u{56}\u{308}\u{303}"],["\u{1e84}\u{303}","\u{57}\u{308}\u{303}","\u{1e84}\u{303}","\u{57}\u{308}\u{303}"],["\u{1e8c}\u{303}","\u{58}\u{308}\u{303}","\u{1e8c}\u{303}","\u{58}\u{308}\u{303}"],["\u{178}\u{303}","\u{59}\u{308}\u{303}","\u{178}\u{303}","\u{59}\u{308}\u{303}"],["\u{5a}\u{308}\u{303}","\u{5a}\u{308}\u{303}","\u{5a}\u{308}\u{303}","\u{5a}\u{308}\u{303}"],["\u{5b}\u{308}\u{303}","\u{5b}\u{308}\u{303}","\u{5b}\u{308}\u{303}","\u{5b}\u{308}\u{303}"],["\u{5c}\u{308}\u{303}","\u{5c}\u{308}\u{303}","\u{5c}\u{308}\u{303}","\u{5c}\u{308}\u{303}"],["\u{5d}\u{308}\u{303}","\u{5d}\u{308}\u{303}","\u{5d}\u{308}\u{303}","\u{5d}\u{308}\u{303}"],["\u{5e}\u{308}\u{303}","\u{5e}\u{308}\u{303}","\u{5e}\u{308}\u{303}","\u{5e}\u{308}\u{303}"],["\u{5f}\u{308}\u{303}","\u{5f}\u{308}\u{303}","\u{5f}\u{308}\u{303}","\u{5f}\u{308}\u{303}"],["\u{60}\u{308}\u{303}","\u{60}\u{308}\u{303}","\u{60}\u{308}\u{303}","\u{60}\u{308}\u{303}"],["\u{e4}\u{303}","\u{61}\u{308}\u{303}","\u{e4}\u{303}","\u{61}\u{308}\u{303}"],["\u{62}\u{308}\u{303}","\u{62}\u{308}\u{303}","\u{62}\u{308}\u{303}","\u{62}\u{308}\u{303}"],["\u{63}\u{308}\u{303}","\u{63}\u{308}\u{303}","\u{63}\u{308}\u{303}","\u{63}\u{308}\u{303}"],["\u{64}\u{308}\u{303}","\u{64}\u{308}\u{303}","\u{64}\u{308}\u{303}","\u{64}\u{308}\u{303}"],["\u{eb}\u{303}","\u{65}\u{308}\u{303}","\u{eb}\u{303}","\u{65}\u{308}\u{303}"],["\u{66}\u{308}\u{303}","\u{66}\u{308}\u{303}","\u{66}\u{308}\u{303}","\u{66}\u{308}\u{303}"],["\u{67}\u{308}\u{303}","\u{67}\u{308}\u{303}","\u{67}\u{308}\u{303}","\u{67}\u{308}\u{303}"],["\u{1e27}\u{303}","\u{68}\u{308}\u{303}","\u{1e27}\u{303}","\u{68}\u{308}\u{303}"],["\u{ef}\u{303}","\u{69}\u{308}\u{303}","\u{ef}\u{303}","\u{69}\u{308}\u{303}"],["\u{6a}\u{308}\u{303}","\u{6a}\u{308}\u{303}","\u{6a}\u{308}\u{303}","\u{6a}\u{308}\u{303}"],["\u{6b}\u{308}\u{303}","\u{6b}\u{308}\u{303}","\u{6b}\u{308}\u{303}","\u{6b}\u{308}\u{303}"],["\u{6c}\u{308}\u{303}","\u{6c}\u{308}\u{303}","\u{6c}\u{308}\u{303}","\u{6c}\u{308}\u{303}"],["\u{6d}\u{308}\u{303}","\u{6d}\u{308}\u{303}","\u{6d}\u{308}\u{303}","\u{6d}\u{308}\u{303}"],["\u{6e}\u{308}\u{303}","\u{6e}\u{308}\u{303}","\u{6e}\u{308}\u{303}","\u{6e}\u{308}\u{303}"],["\u{f6}\u{303}","\u{6f}\u{308}\u{303}","\u{f6}\u{303}","\u{6f}\u{308}\u{303}"],["\u{70}\u{308}\u{303}","\u{70}\u{308}\u{303}","\u{70}\u{308}\u{303}","\u{70}\u{308}\u{303}"],["\u{71}\u{308}\u{303}","\u{71}\u{308}\u{303}","\u{71}\u{308}\u{303}","\u{71}\u{308}\u{303}"],["\u{72}\u{308}\u{303}","\u{72}\u{308}\u{303}","\u{72}\u{308}\u{303}","\u{72}\u{308}\u{303}"],["\u{73}\u{308}\u{303}","\u{73}\u{308}\u{303}","\u{73}\u{308}\u{303}","\u{73}\u{308}\u{303}"],["\u{1e97}\u{303}","\u{74}\u{308}\u{303}","\u{1e97}\u{303}","\u{74}\u{308}\u{303}"],["\u{fc}\u{303}","\u{75}\u{308}\u{303}","\u{fc}\u{303}","\u{75}\u{308}\u{303}"],["\u{76}\u{308}\u{303}","\u{76}\u{308}\u{303}","\u{76}\u{308}\u{303}","\u{76}\u{308}\u{303}"],["\u{1e85}\u{303}","\u{77}\u{308}\u{303}","\u{1e85}\u{303}","\u{77}\u{308}\u{303}"],["\u{1e8d}\u{303}","\u{78}\u{308}\u{303}","\u{1e8d}\u{303}","\u{78}\u{308}\u{303}"],["\u{ff}\u{303}","\u{79}\u{308}\u{303}","\u{ff}\u{303}","\u{79}\u{308}\u{303}"],["\u{7a}\u{308}\u{303}","\u{7a}\u{308}\u{303}","\u{7a}\u{308}\u{303}","\u{7a}\u{308}\u{303}"]],
[["\u{c4}\u{308}","\u{41}\u{308}\u{308}","\u{c4}\u{308}","\u{41}\u{308}\u{308}"],["\u{42}\u{308}\u{308}","\u{42}\u{308}\u{308}","\u{42}\u{308}\u{308}","\u{42}\u{308}\u{308}"],["\u{43}\u{308}\u{308}","\u{43}\u{308}\u{308}","\u{43}\u{308}\u{308}","\u{43}\u{308}\u{308}"],["\u{44}\u{308}\u{308}","\u{44}\u{308}\u{308}","\u{44}\u{308}\u{308}","\u{44}\u{308}\u{308}"],["\u{cb}\u{308}","\u{45}\u{308}\u{308}","\u{cb}\u{308}","\u{45}\u{308}\u{308}"],["\u{46}\u{308}\u{308}","\u{46}\u{308}\u{308}","\u{46}\u{308}\u{308}","\u{46}\u{308}\u{308}"],["\u{47}\u{308}\u{308}","\u{47}\u{308}\u{308}","\u{47}\u{308}\u{308}","\u{47}\u{308}\u{308}"],["\u{1e26}\u{308}","\u{48}\u{308}\u{308}","\u{1e26}\u{308}","\u{48}\u{308}\u{308}"],["\u{cf}\u{308}","\u{49}\u{308}\u{308}","\u{cf}\u{308}","\u{49}\u{308}\u{308}"],["\u{4a}\u{308}\u{308}","\u{4a}\u{308}\u{308}","\u{4a}\u{308}\u{308}","\u{4a}\u{308}\u{308}"],["\u{4b}\u{308}\u{308}","\u{4b}\u{308}\u{308}","\u{4b}\u{308}\u{308}","\u{4b}\u{308}\u{308}"],["\u{4c}\u{308}\u{308}","\u{4c}\u{308}\u{308}","\u{4c}\u{308}\u{308}","\u{4c}\u{308}\u{308}"],["\u{4d}\u{308}\u{308}","\u{4d}\u{308}\u{308}","\u{4d}\u{308}\u{308}","\u{4d}\u{308}\u{308}"],["\u{4e}\u{308}\u{308}","\u{4e}\u{308}\u{308}","\u{4e}\u{308}\u{308}","\u{4e}\u{308}\u{308}"],["\u{d6}\u{308}","\u{4f}\u{308}\u{308}","\u{d6}\u{308}","\u{4f}\u{308}\u{308}"],["\u{50}\u{308}\u{308}","\u{50}\u{308}\u{308}","\u{50}\u{308}\u{308}","\u{50}\u{308}\u{308}"],["\u{51}\u{308}\u{308}","\u{51}\u{308}\u{308}","\u{51}\u{308}\u{308}","\u{51}\u{308}\u{308}"],["\u{52}\u{308}\u{308}","\u{52}\u{308}\u{308}","\u{52}\u{308}\u{308}","\u{52}\u{308}\u{308}"],["\u{53}\u{308}\u{308}","\u{53}\u{308}\u{308}","\u{53}\u{308}\u{308}","\u{53}\u{308}\u{308}"],["\u{54}\u{308}\u{308}","\u{54}\u{308}\u{308}","\u{54}\u{308}\u{308}","\u{54}\u{308}\u{308}"],["\u{dc}\u{308}","\u{55}\u{308}\u{308}","\u{dc}\u{308}","\u{55}\u{308}\u{308}"],["\u{56}\u{308}\u{308}","\u{56}\u{308}\u{308}","\u{56}\u{308}\u{308}","\u{56}\u{308}\u{308}"],["\u{1e84}\u{308}","\u{57}\u{308}\u{308}","\u{1e84}\u{308}","\u{57}\u{308}\u{308}"],["\u{1e8c}\u{308}","\u{58}\u{308}\u{308}","\u{1e8c}\u{308}","\u{58}\u{308}\u{308}"],["\u{178}\u{308}","\u{59}\u{308}\u{308}","\u{178}\u{308}","\u{59}\u{308}\u{308}"],["\u{5a}\u{308}\u{308}","\u{5a}\u{308}\u{308}","\u{5a}\u{308}\u{308}","\u{5a}\u{308}\u{308}"],["\u{5b}\u{308}\u{308}","\u{5b}\u{308}\u{308}","\u{5b}\u{308}\u{308}","\u{5b}\u{308}\u{308}"],["\u{5c}\u{308}\u{308}","\u{5c}\u{308}\u{308}","\u{5c}\u{308}\u{308}","\u{5c}\u{308}\u{308}"],["\u{5d}\u{308}\u{308}","\u{5d}\u{308}\u{308}","\u{5d}\u{308}\u{308}","\u{5d}\u{308}\u{308}"],["\u{5e}\u{308}\u{308}","\u{5e}\u{308}\u{308}","\u{5e}\u{308}\u{308}","\u{5e}\u{308}\u{308}"],["\u{5f}\u{308}\u{308}","\u{5f}\u{308}\u{308}","\u{5f}\u{308}\u{308}","\u{5f}\u{308}\u{308}"],["\u{60}\u{308}\u{308}","\u{60}\u{308}\u{308}","\u{60}\u{308}\u{308}","\u{60}\u{308}\u{308}"],["\u{e4}\u{308}","\u{61}\u{308}\u{308}","\u{e4}\u{308}","\u{61}\u{308}\u{308}"],["\u{62}\u{308}\u{308}","\u{62}\u{308}\u{308}","\u{62}\u{308}\u{308}","\u{62}\u{308}\u{308}"],["\u{63}\u{308}\u{308}","\u{63}\u{308}\u{308}","\u{63}\u{308}\u{308}","\u{63}\u{308}\u{308}"],["\u{64}\u{308}\u{308}","\u{64}\u{308}\u{308}","\u{64}\u{308}\u{308}","\u{64}\u{308}\u{308}"],["\u{eb}\u{308}","\u{65}\u{308}\u{308}","\u{eb}\u{308}","\u{65}\u{308}\u{308}"],["\u{66}\u{308}\u{308}","\u{66}\u{308}\u{308}","\u{66}\u{308}\u{308}","\u{66}\u{308}\u{308}"],["\u{67}\u{308}\u{308}","\u{67}\u{308}\u{308}","\u{67}\u{308}\u{308}","\u{67}\u{308}\u{308}"],["\u{1e27}\u{308}","\u{68}\u{308}\u{308}","\u{1e27}\u{308}","\u{68}\u{308}\u{308}"],["\u{ef}\u{308}","\u{69}\u{308}\u{308}","\u{ef}\u{308}","\u{69}\u{308}\u{308}"],["\u{6a}\u{308}\u{308}","\u{6a}\u{308}\u{308}","\u{6a}\u{308}\u{308}","\u{6a}\u{308}\u{308}"],["\u{6b}\u{308}\u{308}","\u{6b}\u{308}\u{308}","\u{6b}\u{308}\u{308}","\u{6b}\u{308}\u{308}"],["\u{6c}\u{308}\u{308}","\u{6c}\u{308}\u{308}","\u{6c}\u{308}\u{308}","\u{6c}\u{308}\u{308}"],["\u{6d}\u{308}\u{308}","\u{6d}\u{308}\u{308}","\u{6d}\u{308}\u{308}","\u{6d}\u{308}\u{308}"],["\u{6e}\u{308}\u{308}","\u{6e}\u{308}\u{308}","\u{6e}\u{308}\u{308}","\u{6e}\u{308}\u{308}"],["\u{f6}\u{308}","\u{6f}\u{308}\u{308}","\u{f6}\u{308}","\u{6f}\u{308}\u{308}"],["\u{70}\u{308}\u{308}","\u{70}\u{308}\u{308}","\u{70}\u{308}\u{308}","\u{70}\u{308}\u{308}"],["\u{71}\u{308}\u{308}","\u{71}\u{308}\u{308}","\u{71}\u{308}\u{308}","\u{71}\u{308}\u{308}"],["\u{72}\u{308}\u{308}","\u{72}\u{308}\u{308}","\u{72}\u{308}\u{308}","\u{72}\u{308}\u{308}"],["\u{73}\u{308}\u{308}","\u{73}\u{308}\u{308}","\u{73}\u{308}\u{308}","\u{73}\u{308}\u{308}"],["\u{1e97}\u{308}","\u{74}\u{308}\u{308}","\u{1e97}\u{308}","\u{74}\u{308}\u{308}"],["\u{fc}\u{308}","\u{75}\u{308}\u{308}","\u{fc}\u{308}","\u{75}\u{308}\u{308}"],["\u{76}\u{308}\u{308}","\u{76}\u{308}\u{308}","\u{76}\u{308}\u{308}","\u{76}\u{308}\u{308}"],["\u{1e85}\u{308}","\u{77}\u{308}\u{308}","\u{1e85}\u{308}","\u{77}\u{308}\u{308}"],["\u{1e8d}\u{308}","\u{78}\u{308}\u{308}","\u{1e8d}\u{308}","\u{78}\u{308}\u{308}"],["\u{ff}\u{308}","\u{79}\u{308}\u{308}","\u{ff}\u{308}","\u{79}\u{308}\u{308}"],["\u{7a}\u{308}\u{308}","\u{7a}\u{308}\u{308}","\u{7a}\u{308}\u{308}","\u{7a}\u{308}\u{308}"]],
[["\u{1ea0}\u{308}","\u{41}\u{323}\u{308}","\u{1ea0}\u{308}","\u{41}\u{323}\u{308}"],["\u{1e04}\u{308}","\u{42}\u{323}\u{308}","\u{1e04}\u{308}","\u{42}\u{323}\u{308}"],["\u{43}\u{323}\u{308}","\u{43}\u{323}\u{308}","\u{43}\u{323}\u{308}","\u{43}\u{323}\u{308}"],["\u{1e0c}\u{308}","\u{44}\u{323}\u{308}","\u{1e0c}\u{308}","\u{44}\u{323}\u{308}"],["\u{1eb8}\u{308}","\u{45}\u{323}\u{308}","\u{1eb8}\u{308}","\u{45}\u{323}\u{308}"],["\u{46}\u{323}\u{308}","\u{46}\u{323}\u{308}","\u{46}\u{323}\u{308}","\u{46}\u{323}\u{308}"],["\u{47}\u{323}\u{308}","\u{47}\u{323}\u{308}","\u{47}\u{323}\u{308}","\u{47}\u{323}\u{308}"],["\u{1e24}\u{308}","\u{48}\u{323}\u{308}","\u{1e24}\u{308}","\u{48}\u{323}\u{308}"],["\u{1eca}\u{308}","\u{49}\u{323}\u{308}","\u{1eca}\u{308}","\u{49}\u{323}\u{308}"],["\u{4a}\u{323}\u{308}","\u{4a}\u{323}\u{308}","\u{4a}\u{323}\u{308}","\u{4a}\u{323}\u{308}"],["\u{1e32}\u{308}","\u{4b}\u{323}\u{308}","\u{1e32}\u{308}","\u{4b}\u{323}\u{308}"],["\u{1e36}\u{308}","\u{4c}\u{323}\u{308}","\u{1e36}\u{308}","\u{4c}\u{323}\u{308}"],["\u{1e42}\u{308}","\u{4d}\u{323}\u{308}","\u{1e42}\u{308}","\u{4d}\u{323}\u{308}"],["\u{1e46}\u{308}","\u{4e}\u{323}\u{308}","\u{1e46}\u{308}","\u{4e}\u{323}\u{308}"],["\u{1ecc}\u{308}","\u{4f}\u{323}\u{308}","\u{1ecc}\u{308}","\u{4f}\u{323}\u{308}"],["\u{50}\u{323}\u{308}","\u{50}\u{323}\u{308}","\u{50}\u{323}\u{308}","\u{50}\u{323}\u{308}"],["\u{51}\u{323}\u{308}","\u{51}\u{323}\u{308}","\u{51}\u{323}\u{308}","\u{51}\u{323}\u{308}"],["\u{1e5a}\u{308}","\u{52}\u{323}\u{308}","\u{1e5a}\u{308}","\u{52}\u{323}\u{308}"],["\u{1e62}\u{308}","\u{53}\u{323}\u{308}","\u{1e62}\u{308}","\u{53}\u{323}\u{308}"],["\u{1e6c}\u{308}","\u{54}\u{323}\u{308}","\u{1e6c}\u{308}","\u{54}\u{323}\u{308}"],["\u{1ee4}\u{308}","\u{55}\u{323}\u{308}","\u{1ee4}\u{308}","\u{55}\u{323}\u{308}"],["\u{1e7e}\u{308}","\u{56}\u{323}\u{308}","\u{1e7e}\u{308}","\u{56}\u{323}\u{308}"],["\u{1e88}\u{308}","\u{57}\u{323}\u{308}","\u{1e88}\u{308}","\u{57}\u{323}\u{308}"],["\u{1e8c}\u{323}","\u{58}\u{323}\u{308}","\u{1e8c}\u{323}","\u{58}\u{323}\u{308}"],["\u{1ef4}\u{308}","\u{59}\u{323}\u{308}","\u{1ef4}\u{308}","\u{59}\u{323}\u{308}"],["\u{1e92}\u{308}","\u{5a}\u{323}\u{308}","\u{1e92}\u{308}","\u{5a}\u{323}\u{308}"],["\u{5b}\u{323}\u{308}","\u{5b}\u{323}\u{308}","\u{5b}\u{323}\u{308}","\u{5b}\u{323}\u{308}"],["\u{5c}\u{323}\u{308}","\u{5c}\u{323}\u{308}","\u{5c}\u{323}\u{308}","\u{5c}\u{323}\u{308}"],["\u{5d}\u{323}\u{308}","\u{5d}\u{323}\u{308}","\u{5d}\u{323}\u{308}","\u{5d}\u{323}\u{308}"],["\u{5e}\u{323}\u{308}","\u{5e}\u{323}\u{308}","\u{5e}\u{323}\u{308}","\u{5e}\u{323}\u{308}"],["\u{5f}\u{323}\u{308}","\u{5f}\u{323}\u{308}","\u{5f}\u{323}\u{308}","\u{5f}\u{323}\u{308}"],["\u{60}\u{323}\u{308}","\u{60}\u{323}\u{308}","\u{60}\u{323}\u{308}","\u{60}\u{323}\u{308}"],["\u{1ea1}\u{308}","\u{61}\u{323}\u{308}","\u{1ea1}\u{308}","\u{61}\u{323}\u{308}"],["\u{1e05}\u{308}","\u{62}\u{323}\u{308}","\u{1e05}\u{308}","\u{62}\u{323}\u{308}"],["\u{63}\u{323}\u{308}","\u{63}\u{323}\u{308}","\u{63}\u{323}\u{308}","\u{63}\u{323}\u{308}"],["\u{1e0d}\u{308}","\u{64}\u{323}\u{308}","\u{1e0d}\u{308}","\u{64}\u{323}\u{308}"],["\u{1eb9}\u{308}","\u{65}\u{323}\u{308}","\u{1eb9}\u{308}","\u{65}\u{323}\u{308}"],["\u{66}\u{323}\u{308}","\u{66}\u{323}\u{308}","\u{66}\u{323}\u{308}","\u{66}\u{323}\u{308}"],["\u{67}\u{323}\u{308}","\u{67}\u{323}\u{308}","\u{67}\u{323}\u{308}","\u{67}\u{323}\u{308}"],["\u{1e25}\u{308}","\u{68}\u{323}\u{308}","\u{1e25}\u{308}","\u{68}\u{323}\u{308}"],["\u{1ecb}\u{308}","\u{69}\u{323}\u{308}","\u{1ecb}\u{308}","\u{69}\u{323}\u{308}"],["\u{6a}\u{323}\u{308}","\u{6a}\u{323}\u{308}","\u{6a}\u{323}\u{308}","\u{6a}\u{323}\u{308}"],["\u{1e33}\u{308}","\u{6b}\u{323}\u{308}","\u{1e33}\u{308}","\u{6b}\u{323}\u{308}"],["\u{1e37}\u{308}","\u{6c}\u{323}\u{308}","\u{1e37}\u{308}","\u{6c}\u{323}\u{308}"],["\u{1e43}\u{308}","\u{6d}\u{323}\u{308}","\u{1e43}\u{308}","\u{6d}\u{323}\u{308}"],["\u{1e47}\u{308}","\u{6e}\u{323}\u{308}","\u{1e47}\u{308}","\u{6e}\u{323}\u{308}"],["\u{1ecd}\u{308}","\u{6f}\u{323}\u{308}","\u{1ecd}\u{308}","\u{6f}\u{323}\u{308}"],["\u{70}\u{323}\u{308}","\u{70}\u{323}\u{308}","\u{70}\u{323}\u{308}","\u{70}\u{323}\u{308}"],["\u{71}\u{323}\u{308}","\u{71}\u{323}\u{308}","\u{71}\u{323}\u{308}","\u{71}\u{323}\u{308}"],["\u{1e5b}\u{308}","\u{72}\u{323}\u{308}","\u{1e5b}\u{308}","\u{72}\u{323}\u{308}"],["\u{1e63}\u{308}","\u{73}\u{323}\u{308}","\u{1e63}\u{308}","\u{73}\u{323}\u{308}"],["\u{1e6d}\u{308}","\u{74}\u{323}\u{308}","\u{1e6d}\u{308}","\u{74}\u{323}\u{308}"],["\u{1ee5}\u{308}","\u{75}\u{323}\u{308}","\u{1ee5}\u{308}","\u{75}\u{323}\u{308}"],["\u{1e7f}\u{308}","\u{76}\u{323}\u{308}","\u{1e7f}\u{308}","\u{76}\u{323}\u{308}"],["\u{1e89}\u{308}","\u{77}\u{323}\u{308}","\u{1e89}\u{308}","\u{77}\u{323}\u{308}"],["\u{1e8d}\u{323}","\u{78}\u{323}\u{308}","\u{1e8d}\u{323}","\u{78}\u{323}\u{308}"],["\u{1ef5}\u{308}","\u{79}\u{323}\u{308}","\u{1ef5}\u{308}","\u{79}\u{323}\u{308}"],["\u{1e93}\u{308}","\u{7a}\u{323}\u{308}","\u{1e93}\u{308}","\u{7a}\u{323}\u{308}"]],
[["\u{c4}\u{327}","\u{41}\u{327}\u{308}","\u{c4}\u{327}","\u{41}\u{327}\u{308}"],["\u{42}\u{327}\u{308}","\u{42}\u{327}\u{308}","\u{42}\u{327}\u{308}","\u{42}\u{327}\u{308}"],["\u{c7}\u{308}","\u{43}\u{327}\u{308}","\u{c7}\u{308}","\u{43}\u{327}\u{308}"],["\u{1e10}\u{308}","\u{44}\u{327}\u{308}","\u{1e10}\u{308}","\u{44}\u{327}\u{308}"],["\u{228}\u{308}","\u{45}\u{327}\u{308}","\u{228}\u{308}","\u{45}\u{327}\u{308}"],["\u{46}\u{327}\u{308}","\u{46}\u{327}\u{308}","\u{46}\u{327}\u{308}","\u{46}\u{327}\u{308}"],["\u{122}\u{308}","\u{47}\u{327}\u{308}","\u{122}\u{308}","\u{47}\u{327}\u{308}"],["\u{1e28}\u{308}","\u{48}\u{327}\u{308}","\u{1e28}\u{308}","\u{48}\u{327}\u{308}"],["\u{cf}\u{327}","\u{49}\u{327}\u{308}","\u{cf}\u{327}","\u{49}\u{327}\u{308}"],["\u{4a}\u{327}\u{308}","\u{4a}\u{327}\u{308}","\u{4a}\u{327}\u{308}","\u{4a}\u{327}\u{308}"],["\u{136}\u{308}","\u{4b}\u{327}\u{308}","\u{136}\u{308}","\u{4b}\u{327}\u{308}"],["\u{13b}\u{308}","\u{4c}\u{327}\u{308}","\u{13b}\u{308}","\u{4c}\u{327}\u{308}"],["\u{4d}\u{327}\u{308}","\u{4d}\u{327}\u{308}","\u{4d}\u{327}\u{308}","\u{4d}\u{327}\u{308}"],["\u{145}\u{308}","\u{4e}\u{327}\u{308}","\u{145}\u{308}","\u{4e}\u{327}\u{308}"],["\u{d6}\u{327}","\u{4f}\u{327}\u{308}","\u{d6}\u{327}","\u{4f}\u{327}\u{308}"],["\u{50}\u{327}\u{308}","\u{50}\u{327}\u{308}","\u{50}\u{327}\u{308}","\u{50}\u{327}\u{308}"],["\u{51}\u{327}\u{308}","\u{51}\u{327}\u{308}","\u{51}\u{327}\u{308}","\u{51}\u{327}\u{308}"],["\u{156}\u{308}","\u{52}\u{327}\u{308}","\u{156}\u{308}","\u{52}\u{327}\u{308}"],["\u{15e}\u{308}","\u{53}\u{327}\u{308}","\u{15e}\u{308}","\u{53}\u{327}\u{308}"],["\u{162}\u{308}","\u{54}\u{327}\u{308}","\u{162}\u{308}","\u{54}\u{327}\u{308}"],["\u{dc}\u{327}","\u{55}\u{327}\u{308}","\u{dc}\u{327}","\u{55}\u{327}\u{308}"],["\u{56}\u{327}\u{308}","\u{56}\u{327}\u{308}","\u{56}\u{327}\u{308}","\u{56}\u{327}\u{308}"],["\u{1e84}\u{327}","\u{57}\u{327}\u{308}","\u{1e84}\u{327}","\u{57}\u{327}\u{308}"],["\u{1e8c}\u{327}","\u{58}\u{327}\u{308}","\u{1e8c}\u{327}","\u{58}\u{327}\u{308}"],["\u{178}\u{327}","\u{59}\u{327}\u{308}","\u{178}\u{327}","\u{59}\u{327}\u{308}"],["\u{5a}\u{327}\u{308}","\u{5a}\u{327}\u{308}","\u{5a}\u{327}\u{308}","\u{5a}\u{327}\u{308}"],["\u{5b}\u{327}\u{308}","\u{5b}\u{327}\u{308}","\u{5b}\u{327}\u{308}","\u{5b}\u{327}\u{308}"],["\u{5c}\u{327}\u{308}","\u{5c}\u{327}\u{308}","\u{5c}\u{327}\u{308}","\u{5c}\u{327}\u{308}"],["\u{5d}\u{327}\u{308}","\u{5d}\u{327}\u{308}","\u{5d}\u{327}\u{308}","\u{5d}\u{327}\u{308}"],["\u{5e}\u{327}\u{308}","\u{5e}\u{327}\u{308}","\u{5e}\u{327}\u{308}","\u{5e}\u{327}\u{308}"],["\u{5f}\u{327}\u{308}","\u{5f}\u{327}\u{308}","\u{5f}\u{327}\u{308}","\u{5f}\u{327}\u{308}"],["\u{60}\u{327}\u{308}","\u{60}\u{327}\u{308}","\u{60}\u{327}\u{308}","\u{60}\u{327}\u{308}"],["\u{e4}\u{327}","\u{61}\u{327}\u{308}","\u{e4}\u{327}","\u{61}\u{327}\u{308}"],["\u{62}\u{327}\u{308}","\u{62}\u{327}\u{308}","\u{62}\u{327}\u{308}","\u{62}\u{327}\u{308}"],["\u{e7}\u{308}","\u{63}\u{327}\u{308}","\u{e7}\u{308}","\u{63}\u{327}\u{308}"],["\u{1e11}\u{308}","\u{64}\u{327}\u{308}","\u{1e11}\u{308}","\u{64}\u{327}\u{308}"],["\u{229}\u{308}","\u{65}\u{327}\u{308}","\u{229}\u{308}","\u{65}\u{327}\u{308}"],["\u{66}\u{327}\u{308}","\u{66}\u{327}\u{308}","\u{66}\u{327}\u{308}","\u{66}\u{327}\u{308}"],["\u{123}\u{308}","\u{67}\u{327}\u{308}","\u{123}\u{308}","\u{67}\u{327}\u{308}"],["\u{1e29}\u{308}","\u{68}\u{327}\u{308}","\u{1e29}\u{308}","\u{68}\u{327}\u{308}"],["\u{ef}\u{327}","\u{69}\u{327}\u{308}","\u{ef}\u{327}","\u{69}\u{327}\u{308}"],["\u{6a}\u{327}\u{308}","\u{6a}\u{327}\u{308}","\u{6a}\u{327}\u{308}","\u{6a}\u{327}\u{308}"],["\u{137}\u{308}","\u{6b}\u{327}\u{308}","\u{137}\u{308}","\u{6b}\u{327}\u{308}"],["\u{13c}\u{308}","\u{6c}\u{327}\u{308}","\u{13c}\u{308}","\u{6c}\u{327}\u{308}"],["\u{6d}\u{327}\u{308}","\u{6d}\u{327}\u{308}","\u{6d}\u{327}\u{308}","\u{6d}\u{327}\u{308}"],["\u{146}\u{308}","\u{6e}\u{327}\u{308}","\u{146}\u{308}","\u{6e}\u{327}\u{308}"],["\u{f6}\u{327}","\u{6f}\u{327}\u{308}","\u{f6}\u{327}","\u{6f}\u{327}\u{308}"],["\u{70}\u{327}\u{308}","\u{70}\u{327}\u{308}","\u{70}\u{327}\u{308}","\u{70}\u{327}\u{308}"],["\u{71}\u{327}\u{308}","\u{71}\u{327}\u{308}","\u{71}\u{327}\u{308}","\u{71}\u{327}\u{308}"],["\u{157}\u{308}","\u{72}\u{327}\u{308}","\u{157}\u{308}","\u{72}\u{327}\u{308}"],["\u{15f}\u{308}","\u{73}\u{327}\u{308}","\u{15f}\u{308}","\u{73}\u{327}\u{308}"],["\u{163}\u{308}","\u{74}\u{327}\u{308}","\u{163}\u{308}","\u{74}\u{327}\u{308}"],["\u{fc}\u{327}","\u{75}\u{327}\u{308}","\u{fc}\u{327}","\u{75}\u{327}\u{308}"],["\u{76}\u{327}\u{308}","\u{76}\u{327}\u{308}","\u{76}\u{327}\u{308}","\u{76}\u{327}\u{308}"],["\u{1e85}\u{327}","\u{77}\u{327}\u{308}","\u{1e85}\u{327}","\u{77}\u{327}\u{308}"],["\u{1e8d}\u{327}","\u{78}\u{327}\u{308}","\u{1e8d}\u{327}","\u{78}\u{327}\u{308}"],["\u{ff}\u{327}","\u{79}\u{327}\u{308}","\u{ff}\u{327}","\u{79}\u{327}\u{308}"],["\u{7a}\u{327}\u{308}","\u{7a}\u{327}\u{308}","\u{7a}\u{327}\u{308}","\u{7a}\u{327}\u{308}"]],
[["\u{c4}\u{31b}","\u{41}\u{31b}\u{308}","\u{c4}\u{31b}","\u{41}\u{31b}\u{308}"],["\u{42}\u{31b}\u{308}","\u{42}\u{31b}\u{308}","\u{42}\u{31b}\u{308}","\u{42}\u{31b}\u{308}"],["\u{43}\u{31b}\u{308}","\u{43}\u{31b}\u{308}","\u{43}\u{31b}\u{308}","\u{43}\u{31b}\u{308}"],["\u{44}\u{31b}\u{308}","\u{44}\u{31b}\u{308}","\u{44}\u{31b}\u{308}","\u{44}\u{31b}\u{308}"],["\u{cb}\u{31b}","\u{45}\u{31b}\u{308}","\u{cb}\u{31b}","\u{45}\u{31b}\u{308}"],["\u{46}\u{31b}\u{308}","\u{46}\u{31b}\u{308}","\u{46}\u{31b}\u{308}","\u{46}\u{31b}\u{308}"],["\u{47}\u{31b}\u{308}","\u{47}\u{31b}\u{308}","\u{47}\u{31b}\u{308}","\u{47}\u{31b}\u{308}"],["\u{1e26}\u{31b}","\u{48}\u{31b}\u{308}","\u{1e26}\u{31b}","\u{48}\u{31b}\u{308}"],["\u{cf}\u{31b}","\u{49}\u{31b}\u{308}","\u{cf}\u{31b}","\u{49}\u{31b}\u{308}"],["\u{4a}\u{31b}\u{308}","\u{4a}\u{31b}\u{308}","\u{4a}\u{31b}\u{308}","\u{4a}\u{31b}\u{308}"],["\u{4b}\u{31b}\u{308}","\u{4b}\u{31b}\u{308}","\u{4b}\u{31b}\u{308}","\u{4b}\u{31b}\u{308}"],["\u{4c}\u{31b}\u{308}","\u{4c}\u{31b}\u{308}","\u{4c}\u{31b}\u{308}","\u{4c}\u{31b}\u{308}"],["\u{4d}\u{31b}\u{308}","\u{4d}\u{31b}\u{308}","\u{4d}\u{31b}\u{308}","\u{4d}\u{31b}\u{308}"],["\u{4e}\u{31b}\u{308}","\u{4e}\u{31b}\u{308}","\u{4e}\u{31b}\u{308}","\u{4e}\u{31b}\u{308}"],["\u{1a0}\u{308}","\u{4f}\u{31b}\u{308}","\u{1a0}\u{308}","\u{4f}\u{31b}\u{308}"],["\u{50}\u{31b}\u{308}","\u{50}\u{31b}\u{308}","\u{50}\u{31b}\u{308}","\u{50}\u{31b}\u{308}"],["\u{51}\u{31b}\u{308}","\u{51}\u{31b}\u{308}","\u{51}\u{31b}\u{308}","\u{51}\u{31b}\u{308}"],["\u{52}\u{31b}\u{308}","\u{52}\u{31b}\u{308}","\u{52}\u{31b}\u{308}","\u{52}\u{31b}\u{308}"],["\u{53}\u{31b}\u{308}","\u{53}\u{31b}\u{308}","\u{53}\u{31b}\u{308}","\u{53}\u{31b}\u{308}"],["\u{54}\u{31b}\u{308}","\u{54}\u{31b}\u{308}","\u{54}\u{31b}\u{308}","\u{54}\u{31b}\u{308}"],["\u{1af}\u{308}","\u{55}\u{31b}\u{308}","\u{1af}\u{308}","\u{55}\u{31b}\u{308}"],["\u{56}\u{31b}\u{308}","\u{56}\u{31b}\u{308}","\u{56}\u{31b}\u{308}","\u{56}\u{31b}\u{308}"],["\u{1e84}\u{31b}","\u{57}\u{31b}\u{308}","\u{1e84}\u{31b}","\u{57}\u{31b}\u{308}"],["\u{1e8c}\u{31b}","\u{58}\u{31b}\u{308}","\u{1e8c}\u{31b}","\u{58}\u{31b}\u{308}"],["\u{178}\u{31b}","\u{59}\u{31b}\u{308}","\u{178}\u{31b}","\u{59}\u{31b}\u{308}"],["\u{5a}\u{31b}\u{308}","\u{5a}\u{31b}\u{308}","\u{5a}\u{31b}\u{308}","\u{5a}\u{31b}\u{308}"],["\u{5b}\u{31b}\u{308}","\u{5b}\u{31b}\u{308}","\u{5b}\u{31b}\u{308}","\u{5b}\u{31b}\u{308}"],["\u{5c}\u{31b}\u{308}","\u{5c}\u{31b}\u{308}","\u{5c}\u{31b}\u{308}","\u{5c}\u{31b}\u{308}"],["\u{5d}\u{31b}\u{308}","\u{5d}\u{31b}\u{308}","\u{5d}\u{31b}\u{308}","\u{5d}\u{31b}\u{308}"],["\u{5e}\u{31b}\u{308}","\u{5e}\u{31b}\u{308}","\u{5e}\u{31b}\u{308}","\u{5e}\u{31b}\u{308}"],["\u{5f}\u{31b}\u{308}","\u{5f}\u{31b}\u{308}","\u{5f}\u{31b}\u{308}","\u{5f}\u{31b}\u{308}"],["\u{60}\u{31b}\u{308}","\u{60}\u{31b}\u{308}","\u{60}\u{31b}\u{308}","\u{60}\u{31b}\u{308}"],["\u{e4}\u{31b}","\u{61}\u{31b}\u{308}","\u{e4}\u{31b}","\u{61}\u{31b}\u{308}"],["\u{62}\u{31b}\u{308}","\u{62}\u{31b}\u{308}","\u{62}\u{31b}\u{308}","\u{62}\u{31b}\u{308}"],["\u{63}\u{31b}\u{308}","\u{63}\u{31b}\u{308}","\u{63}\u{31b}\u{308}","\u{63}\u{31b}\u{308}"],["\u{64}\u{31b}\u{308}","\u{64}\u{31b}\u{308}","\u{64}\u{31b}\u{308}","\u{64}\u{31b}\u{308}"],["\u{eb}\u{31b}","\u{65}\u{31b}\u{308}","\u{eb}\u{31b}","\u{65}\u{31b}\u{308}"],["\u{66}\u{31b}\u{308}","\u{66}\u{31b}\u{308}","\u{66}\u{31b}\u{308}","\u{66}\u{31b}\u{308}"],["\u{67}\u{31b}\u{308}","\u{67}\u{31b}\u{308}","\u{67}\u{31b}\u{308}","\u{67}\u{31b}\u{308}"],["\u{1e27}\u{31b}","\u{68}\u{31b}\u{308}","\u{1e27}\u{31b}","\u{68}\u{31b}\u{308}"],["\u{ef}\u{31b}","\u{69}\u{31b}\u{308}","\u{ef}\u{31b}","\u{69}\u{31b}\u{308}"],["\u{6a}\u{31b}\u{308}","\u{6a}\u{31b}\u{308}","\u{6a}\u{31b}\u{308}","\u{6a}\u{31b}\u{308}"],["\u{6b}\u{31b}\u{308}","\u{6b}\u{31b}\u{308}","\u{6b}\u{31b}\u{308}","\u{6b}\u{31b}\u{308}"],["\u{6c}\u{31b}\u{308}","\u{6c}\u{31b}\u{308}","\u{6c}\u{31b}\u{308}","\u{6c}\u{31b}\u{308}"],["\u{6d}\u{31b}\u{308}","\u{6d}\u{31b}\u{308}","\u{6d}\u{31b}\u{308}","\u{6d}\u{31b}\u{308}"],["\u{6e}\u{31b}\u{308}","\u{6e}\u{31b}\u{308}","\u{6e}\u{31b}\u{308}","\u{6e}\u{31b}\u{308}"],["\u{1a1}\u{308}","\u{6f}\u{31b}\u{308}","\u{1a1}\u{308}","\u{6f}\u{31b}\u{308}"],["\u{70}\u{31b}\u{308}","\u{70}\u{31b}\u{308}","\u{70}\u{31b}\u{308}","\u{70}\u{31b}\u{308}"],["\u{71}\u{31b}\u{308}","\u{71}\u{31b}\u{308}","\u{71}\u{31b}\u{308}","\u{71}\u{31b}\u{308}"],["\u{72}\u{31b}\u{308}","\u{72}\u{31b}\u{308}","\u{72}\u{31b}\u{308}","\u{72}\u{31b}\u{308}"],["\u{73}\u{31b}\u{308}","\u{73}\u{31b}\u{308}","\u{73}\u{31b}\u{308}","\u{73}\u{31b}\u{308}"],["\u{1e97}\u{31b}","\u{74}\u{31b}\u{308}","\u{1e97}\u{31b}","\u{74}\u{31b}\u{308}"],["\u{1b0}\u{308}","\u{75}\u{31b}\u{308}","\u{1b0}\u{308}","\u{75}\u{31b}\u{308}"],["\u{76}\u{31b}\u{308}","\u{76}\u{31b}\u{308}","\u{76}\u{31b}\u{308}","\u{76}\u{31b}\u{308}"],["\u{1e85}\u{31b}","\u{77}\u{31b}\u{308}","\u{1e85}\u{31b}","\u{77}\u{31b}\u{308}"],["\u{1e8d}\u{31b}","\u{78}\u{31b}\u{308}","\u{1e8d}\u{31b}","\u{78}\u{31b}\u{308}"],["\u{ff}\u{31b}","\u{79}\u{31b}\u{308}","\u{ff}\u{31b}","\u{79}\u{31b}\u{308}"],["\u{7a}\u{31b}\u{308}","\u{7a}\u{31b}\u{308}","\u{7a}\u{31b}\u{308}","\u{7a}\u{31b}\u{308}"]],
[["\u{c4}\u{345}","\u{41}\u{308}\u{345}","\u{c4}\u{345}","\u{41}\u{308}\u{345}"],["\u{42}\u{308}\u{345}","\u{42}\u{308}\u{345}","\u{42}\u{308}\u{345}","\u{42}\u{308}\u{345}"],["\u{43}\u{308}\u{345}","\u{43}\u{308}\u{345}","\u{43}\u{308}\u{345}","\u{43}\u{308}\u{345}"],["\u{44}\u{308}\u{345}","\u{44}\u{308}\u{345}","\u{44}\u{308}\u{345}","\u{44}\u{308}\u{345}"],["\u{cb}\u{345}","\u{45}\u{308}\u{345}","\u{cb}\u{345}","\u{45}\u{308}\u{345}"],["\u{46}\u{308}\u{345}","\u{46}\u{308}\u{345}","\u{46}\u{308}\u{345}","\u{46}\u{308}\u{345}"],["\u{47}\u{308}\u{345}","\u{47}\u{308}\u{345}","\u{47}\u{308}\u{345}","\u{47}\u{308}\u{345}"],["\u{1e26}\u{345}","\u{48}\u{308}\u{345}","\u{1e26}\u{345}","\u{48}\u{308}\u{345}"],["\u{cf}\u{345}","\u{49}\u{308}\u{345}","\u{cf}\u{345}","\u{49}\u{308}\u{345}"],["\u{4a}\u{308}\u{345}","\u{4a}\u{308}\u{345}","\u{4a}\u{308}\u{345}","\u{4a}\u{308}\u{345}"],["\u{4b}\u{308}\u{345}","\u{4b}\u{308}\u{345}","\u{4b}\u{308}\u{345}","\u{4b}\u{308}\u{345}"],["\u{4c}\u{308}\u{345}","\u{4c}\u{308}\u{345}","\u{4c}\u{308}\u{345}","\u{4c}\u{308}\u{345}"],["\u{4d}\u{308}\u{345}","\u{4d}\u{308}\u{345}","\u{4d}\u{308}\u{345}","\u{4d}\u{308}\u{345}"],["\u{4e}\u{308}\u{345}","\u{4e}\u{308}\u{345}","\u{4e}\u{308}\u{345}","\u{4e}\u{308}\u{345}"],["\u{d6}\u{345}","\u{4f}\u{308}\u{345}","\u{d6}\u{345}","\u{4f}\u{308}\u{345}"],["\u{50}\u{308}\u{345}","\u{50}\u{308}\u{345}","\u{50}\u{308}\u{345}","\u{50}\u{308}\u{345}"],["\u{51}\u{308}\u{345}","\u{51}\u{308}\u{345}","\u{51}\u{308}\u{345}","\u{51}\u{308}\u{345}"],["\u{52}\u{308}\u{345}","\u{52}\u{308}\u{345}","\u{52}\u{308}\u{345}","\u{52}\u{308}\u{345}"],["\u{53}\u{308}\u{345}","\u{53}\u{308}\u{345}","\u{53}\u{308}\u{345}","\u{53}\u{308}\u{345}"],["\u{54}\u{308}\u{345}","\u{54}\u{308}\u{345}","\u{54}\u{308}\u{345}","\u{54}\u{308}\u{345}"],["\u{dc}\u{345}","\u{55}\u{308}\u{345}","\u{dc}\u{345}","\u{55}\u{308}\u{345}"],["\u{56}\u{308}\u{345}","\u{56}\u{308}\u{345}","\u{56}\u{308}\u{345}","\u{56}\u{308}\u{345}"],["\u{1e84}\u{345}","\u{57}\u{308}\u{345}","\u{1e84}\u{345}","\u{57}\u{308}\u{345}"],["\u{1e8c}\u{345}","\u{58}\u{308}\u{345}","\u{1e8c}\u{345}","\u{58}\u{308}\u{345}"],["\u{178}\u{345}","\u{59}\u{308}\u{345}","\u{178}\u{345}","\u{59}\u{308}\u{345}"],["\u{5a}\u{308}\u{345}","\u{5a}\u{308}\u{345}","\u{5a}\u{308}\u{345}","\u{5a}\u{308}\u{345}"],["\u{5b}\u{308}\u{345}","\u{5b}\u{308}\u{345}","\u{5b}\u{308}\u{345}","\u{5b}\u{308}\u{345}"],["\u{5c}\u{308}\u{345}","\u{5c}\u{308}\u{345}","\u{5c}\u{308}\u{345}","\u{5c}\u{308}\u{345}"],["\u{5d}\u{308}\u{345}","\u{5d}\u{308}\u{345}","\u{5d}\u{308}\u{345}","\u{5d}\u{308}\u{345}"],["\u{5e}\u{308}\u{345}","\u{5e}\u{308}\u{345}","\u{5e}\u{308}\u{345}","\u{5e}\u{308}\u{345}"],["\u{5f}\u{308}\u{345}","\u{5f}\u{308}\u{345}","\u{5f}\u{308}\u{345}","\u{5f}\u{308}\u{345}"],["\u{60}\u{308}\u{345}","\u{60}\u{308}\u{345}","\u{60}\u{308}\u{345}","\u{60}\u{308}\u{345}"],["\u{e4}\u{345}","\u{61}\u{308}\u{345}","\u{e4}\u{345}","\u{61}\u{308}\u{345}"],["\u{62}\u{308}\u{345}","\u{62}\u{308}\u{345}","\u{62}\u{308}\u{345}","\u{62}\u{308}\u{345}"],["\u{63}\u{308}\u{345}","\u{63}\u{308}\u{345}","\u{63}\u{308}\u{345}","\u{63}\u{308}\u{345}"],["\u{64}\u{308}\u{345}","\u{64}\u{308}\u{345}","\u{64}\u{308}\u{345}","\u{64}\u{308}\u{345}"],["\u{eb}\u{345}","\u{65}\u{308}\u{345}","\u{eb}\u{345}","\u{65}\u{308}\u{345}"],["\u{66}\u{308}\u{345}","\u{66}\u{308}\u{345}","\u{66}\u{308}\u{345}","\u{66}\u{308}\u{345}"],["\u{67}\u{308}\u{345}","\u{67}\u{308}\u{345}","\u{67}\u{308}\u{345}","\u{67}\u{308}\u{345}"],["\u{1e27}\u{345}","\u{68}\u{308}\u{345}","\u{1e27}\u{345}","\u{68}\u{308}\u{345}"],["\u{ef}\u{345}","\u{69}\u{308}\u{345}","\u{ef}\u{345}","\u{69}\u{308}\u{345}"],["\u{6a}\u{308}\u{345}","\u{6a}\u{308}\u{345}","\u{6a}\u{308}\u{345}","\u{6a}\u{308}\u{345}"],["\u{6b}\u{308}\u{345}","\u{6b}\u{308}\u{345}","\u{6b}\u{308}\u{345}","\u{6b}\u{308}\u{345}"],["\u{6c}\u{308}\u{345}","\u{6c}\u{308}\u{345}","\u{6c}\u{308}\u{345}","\u{6c}\u{308}\u{345}"],["\u{6d}\u{308}\u{345}","\u{6d}\u{308}\u{345}","\u{6d}\u{308}\u{345}","\u{6d}\u{308}\u{345}"],["\u{6e}\u{308}\u{345}","\u{6e}\u{308}\u{345}","\u{6e}\u{308}\u{345}","\u{6e}\u{308}\u{345}"],["\u{f6}\u{345}","\u{6f}\u{308}\u{345}","\u{f6}\u{345}","\u{6f}\u{308}\u{345}"],["\u{70}\u{308}\u{345}","\u{70}\u{308}\u{345}","\u{70}\u{308}\u{345}","\u{70}\u{308}\u{345}"],["\u{71}\u{308}\u{345}","\u{71}\u{308}\u{345}","\u{71}\u{308}\u{345}","\u{71}\u{308}\u{345}"],["\u{72}\u{308}\u{345}","\u{72}\u{308}\u{345}","\u{72}\u{308}\u{345}","\u{72}\u{308}\u{345}"],["\u{73}\u{308}\u{345}","\u{73}\u{308}\u{345}","\u{73}\u{308}\u{345}","\u{73}\u{308}\u{345}"],["\u{1e97}\u{345}","\u{74}\u{308}\u{345}","\u{1e97}\u{345}","\u{74}\u{308}\u{345}"],["\u{fc}\u{345}","\u{75}\u{308}\u{345}","\u{fc}\u{345}","\u{75}\u{308}\u{345}"],["\u{76}\u{308}\u{345}","\u{76}\u{308}\u{345}","\u{76}\u{308}\u{345}","\u{76}\u{308}\u{345}"],["\u{1e85}\u{345}","\u{77}\u{308}\u{345}","\u{1e85}\u{345}","\u{77}\u{308}\u{345}"],["\u{1e8d}\u{345}","\u{78}\u{308}\u{345}","\u{1e8d}\u{345}","\u{78}\u{308}\u{345}"],["\u{ff}\u{345}","\u{79}\u{308}\u{345}","\u{ff}\u{345}","\u{79}\u{308}\u{345}"],["\u{7a}\u{308}\u{345}","\u{7a}\u{308}\u{345}","\u{7a}\u{308}\u{345}","\u{7a}\u{308}\u{345}"]],
[["\u{c4}\u{20d2}","\u{41}\u{20d2}\u{308}","\u{c4}\u{20d2}","\u{41}\u{20d2}\u{308}"],["\u{42}\u{20d2}\u{308}","\u{42}\u{20d2}\u{308}","\u{42}\u{20d2}\u{308}","\u{42}\u{20d2}\u{308}"],["\u{43}\u{20d2}\u{308}","\u{43}\u{20d2}\u{308}","\u{43}\u{20d2}\u{308}","\u{43}\u{20d2}\u{308}"],["\u{44}\u{20d2}\u{308}","\u{44}\u{20d2}\u{308}","\u{44}\u{20d2}\u{308}","\u{44}\u{20d2}\u{308}"],["\u{cb}\u{20d2}","\u{45}\u{20d2}\u{308}","\u{cb}\u{20d2}","\u{45}\u{20d2}\u{308}"],["\u{46}\u{20d2}\u{308}","\u{46}\u{20d2}\u{308}","\u{46}\u{20d2}\u{308}","\u{46}\u{20d2}\u{308}"],["\u{47}\u{20d2}\u{308}","\u{47}\u{20d2}\u{308}","\u{47}\u{20d2}\u{308}","\u{47}\u{20d2}\u{308}"],["\u{1e26}\u{20d2}","\u{48}\u{20d2}\u{308}","\u{1e26}\u{20d2}","\u{48}\u{20d2}\u{308}"],["\u{cf}\u{20d2}","\u{49}\u{20d2}\u{308}","\u{cf}\u{20d2}","\u{49}\u{20d2}\u{308}"],["\u{4a}\u{20d2}\u{308}","\u{4a}\u{20d2}\u{308}","\u{4a}\u{20d2}\u{308}","\u{4a}\u{20d2}\u{308}"],["\u{4b}\u{20d2}\u{308}","\u{4b}\u{20d2}\u{308}","\u{4b}\u{20d2}\u{308}","\u{4b}\u{20d2}\u{308}"],["\u{4c}\u{20d2}\u{308}","\u{4c}\u{20d2}\u{308}","\u{4c}\u{20d2}\u{308}","\u{4c}\u{20d2}\u{308}"],["\u{4d}\u{20d2}\u{308}","\u{4d}\u{20d2}\u{308}","\u{4d}\u{20d2}\u{308}","\u{4d}\u{20d2}\u{308}"],["\u{4e}\u{20d2}\u{308}","\u{4e}\u{20d2}\u{308}","\u{4e}\u{20d2}\u{308}","\u{4e}\u{20d2}\u{308}"],["\u{d6}\u{20d2}","\u{4f}\u{20d2}\u{308}","\u{d6}\u{20d2}","\u{4f}\u{20d2}\u{308}"],["\u{50}\u{20d2}\u{308}","\u{50}\u{20d2}\u{308}","\u{50}\u{20d2}\u{308}","\u{50}\u{20d2}\u{308}"],["\u{51}\u{20d2}\u{308}","\u{51}\u{20d2}\u{308}","\u{51}\u{20d2}\u{308}","\u{51}\u{20d2}\u{308}"],["\u{52}\u{20d2}\u{308}","\u{52}\u{20d2}\u{308}","\u{52}\u{20d2}\u{308}","\u{52}\u{20d2}\u{308}"],["\u{53}\u{20d2}\u{308}","\u{53}\u{20d2}\u{308}","\u{53}\u{20d2}\u{308}","\u{53}\u{20d2}\u{308}"],["\u{54}\u{20d2}\u{308}","\u{54}\u{20d2}\u{308}","\u{54}\u{20d2}\u{308}","\u{54}\u{20d2}\u{308}"],["\u{dc}\u{20d2}","\u{55}\u{20d2}\u{308}","\u{dc}\u{20d2}","\u{55}\u{20d2}\u{308}"],["\u{56}\u{20d2}\u{308}","\u{56}\u{20d2}\u{308}","\u{56}\u{20d2}\u{308}","\u{56}\u{20d2}\u{308}"],["\u{1e84}\u{20d2}","\u{57}\u{20d2}\u{308}","\u{1e84}\u{20d2}","\u{57}\u{20d2}\u{308}"],["\u{1e8c}\u{20d2}","\u{58}\u{20d2}\u{308}","\u{1e8c}\u{20d2}","\u{58}\u{20d2}\u{308}"],["\u{178}\u{20d2}","\u{59}\u{20d2}\u{308}","\u{178}\u{20d2}","\u{59}\u{20d2}\u{308}"],["\u{5a}\u{20d2}\u{308}","\u{5a}\u{20d2}\u{308}","\u{5a}\u{20d2}\u{308}","\u{5a}\u{20d2}\u{308}"],["\u{5b}\u{20d2}\u{308}","\u{5b}\u{20d2}\u{308}","\u{5b}\u{20d2}\u{308}","\u{5b}\u{20d2}\u{308}"],["\u{5c}\u{20d2}\u{308}","\u{5c}\u{20d2}\u{308}","\u{5c}\u{20d2}\u{308}","\u{5c}\u{20d2}\u{308}"],["\u{5d}\u{20d2}\u{308}","\u{5d}\u{20d2}\u{308}","\u{5d}\u{20d2}\u{308}","\u{5d}\u{20d2}\u{308}"],["\u{5e}\u{20d2}\u{308}","\u{5e}\u{20d2}\u{308}","\u{5e}\u{20d2}\u{308}","\u{5e}\u{20d2}\u{308}"],["\u{5f}\u{20d2}\u{308}","\u{5f}\u{20d2}\u{308}","\u{5f}\u{20d2}\u{308}","\u{5f}\u{20d2}\u{308}"],["\u{60}\u{20d2}\u{308}","\u{60}\u{20d2}\u{308}","\u{60}\u{20d2}\u{308}","\u{60}\u{20d2}\u{308}"],["\u{e4}\u{20d2}","\u{61}\u{20d2}\u{308}","\u{e4}\u{20d2}","\u{61}\u{20d2}\u{308}"],["\u{62}\u{20d2}\u{308}","\u{62}\u{20d2}\u{308}","\u{62}\u{20d2}\u{308}","\u{62}\u{20d2}\u{308}"],["\u{63}\u{20d2}\u{308}","\u{63}\u{20d2}\u{308}","\u{63}\u{20d2}\u{308}","\u{63}\u{20d2}\u{308}"],["\u{64}\u{20d2}\u{308}","\u{64}\u{20d2}\u{308}","\u{64}\u{20d2}\u{308}","\u{64}\u{20d2}\u{308}"],["\u{eb}\u{20d2}","\u{65}\u{20d2}\u{308}","\u{eb}\u{20d2}","\u{65}\u{20d2}\u{308}"],["\u{66}\u{20d2}\u{308}","\u{66}\u{20d2}\u{308}","\u{66}\u{20d2}\u{308}","\u{66}\u{20d2}\u{308}"],["\u{67}\u{20d2}\u{308}","\u{67}\u{20d2}\u{308}","\u{67}\u{20d2}\u{308}","\u{67}\u{20d2}\u{308}"],["\u{1e27}\u{20d2}","\u{68}\u{20d2}\u{308}","\u{1e27}\u{20d2}","\u{68}\u{20d2}\u{308}"],["\u{ef}\u{20d2}","\u{69}\u{20d2}\u{308}","\u{ef}\u{20d2}","\u{69}\u{20d2}\u{308}"],["\u{6a}\u{20d2}\u{308}","\u{6a}\u{20d2}\u{308}","\u{6a}\u{20d2}\u{308}","\u{6a}\u{20d2}\u{308}"],["\u{6b}\u{20d2}\u{308}","\u{6b}\u{20d2}\u{308}","\u{6b}\u{20d2}\u{308}","\u{6b}\u{20d2}\u{308}"],["\u{6c}\u{20d2}\u{308}","\u{6c}\u{20d2}\u{308}","\u{6c}\u{20d2}\u{308}","\u{6c}\u{20d2}\u{308}"],["\u{6d}\u{20d2}\u{308}","\u{6d}\u{20d2}\u{308}","\u{6d}\u{20d2}\u{308}","\u{6d}\u{20d2}\u{308}"],["\u{6e}\u{20d2}\u{308}","\u{6e}\u{20d2}\u{308}","\u{6e}\u{20d2}\u{308}","\u{6e}\u{20d2}\u{308}"],["\u{f6}\u{20d2}","\u{6f}\u{20d2}\u{308}","\u{f6}\u{20d2}","\u{6f}\u{20d2}\u{308}"],["\u{70}\u{20d2}\u{308}","\u{70}\u{20d2}\u{308}","\u{70}\u{20d2}\u{308}","\u{70}\u{20d2}\u{308}"],["\u{71}\u{20d2}\u{308}","\u{71}\u{20d2}\u{308}","\u{71}\u{20d2}\u{308}","\u{71}\u{20d2}\u{308}"],["\u{72}\u{20d2}\u{308}","\u{72}\u{20d2}\u{308}","\u{72}\u{20d2}\u{308}","\u{72}\u{20d2}\u{308}"],["\u{73}\u{20d2}\u{308}","\u{73}\u{20d2}\u{308}","\u{73}\u{20d2}\u{308}","\u{73}\u{20d2}\u{308}"],["\u{1e97}\u{20d2}","\u{74}\u{20d2}\u{308}","\u{1e97}\u{20d2}","\u{74}\u{20d2}\u{308}"],["\u{fc}\u{20d2}","\u{75}\u{20d2}\u{308}","\u{fc}\u{20d2}","\u{75}\u{20d2}\u{308}"],["\u{76}\u{20d2}\u{308}","\u{76}\u{20d2}\u{308}","\u{76}\u{20d2}\u{308}","\u{76}\u{20d2}\u{308}"],["\u{1e85}\u{20d2}","\u{77}\u{20d2}\u{308}","\u{1e85}\u{20d2}","\u{77}\u{20d2}\u{308}"],["\u{1e8d}\u{20d2}","\u{78}\u{20d2}\u{308}","\u{1e8d}\u{20d2}","\u{78}\u{20d2}\u{308}"],["\u{ff}\u{20d2}","\u{79}\u{20d2}\u{308}","\u{ff}\u{20d2}","\u{79}\u{20d2}\u{308}"],["\u{7a}\u{20d2}\u{308}","\u{7a}\u{20d2}\u{308}","\u{7a}\u{20d2}\u{308}","\u{7a}\u{20d2}\u{308}"]],
[["\u{1ea0}\u{300}","\u{41}\u{323}\u{300}","\u{1ea0}\u{300}","\u{41}\u{323}\u{300}"],["\u{1e04}\u{300}","\u{42}\u{323}\u{300}","\u{1e04}\u{300}","\u{42}\u{323}\u{300}"],["\u{43}\u{323}\u{300}","\u{43}\u{323}\u{300}","\u{43}\u{323}\u{300}","\u{43}\u{323}\u{300}"],["\u{1e0c}\u{300}","\u{44}\u{323}\u{300}","\u{1e0c}\u{300}","\u{44}\u{323}\u{300}"],["\u{1eb8}\u{300}","\u{45}\u{323}\u{300}","\u{1eb8}\u{300}","\u{45}\u{323}\u{300}"],["\u{46}\u{323}\u{300}","\u{46}\u{323}\u{300}","\u{46}\u{323}\u{300}","\u{46}\u{323}\u{300}"],["\u{47}\u{323}\u{300}","\u{47}\u{323}\u{300}","\u{47}\u{323}\u{300}","\u{47}\u{323}\u{300}"],["\u{1e24}\u{300}","\u{48}\u{323}\u{300}","\u{1e24}\u{300}","\u{48}\u{323}\u{300}"],["\u{1eca}\u{300}","\u{49}\u{323}\u{300}","\u{1eca}\u{300}","\u{49}\u{323}\u{300}"],["\u{4a}\u{323}\u{300}","\u{4a}\u{323}\u{300}","\u{4a}\u{323}\u{300}","\u{4a}\u{323}\u{300}"],["\u{1e32}\u{300}","\u{4b}\u{323}\u{300}","\u{1e32}\u{300}","\u{4b}\u{323}\u{300}"],["\u{1e36}\u{300}","\u{4c}\u{323}\u{300}","\u{1e36}\u{300}","\u{4c}\u{323}\u{300}"],["\u{1e42}\u{300}","\u{4d}\u{323}\u{300}","\u{1e42}\u{300}","\u{4d}\u{323}\u{300}"],["\u{1e46}\u{300}","\u{4e}\u{323}\u{300}","\u{1e46}\u{300}","\u{4e}\u{323}\u{300}"],["\u{1ecc}\u{300}","\u{4f}\u{323}\u{300}","\u{1ecc}\u{300}","\u{4f}\u{323}\u{300}"],["\u{50}\u{323}\u{300}","\u{50}\u{323}\u{300}","\u{50}\u{323}\u{300}","\u{50}\u{323}\u{300}"],["\u{51}\u{323}\u{300}","\u{51}\u{323}\u{300}","\u{51}\u{323}\u{300}","\u{51}\u{323}\u{300}"],["\u{1e5a}\u{300}","\u{52}\u{323}\u{300}","\u{1e5a}\u{300}","\u{52}\u{323}\u{300}"],["\u{1e62}\u{300}","\u{53}\u{323}\u{300}","\u{1e62}\u{300}","\u{53}\u{323}\u{300}"],["\u{1e6c}\u{300}","\u{54}\u{323}\u{300}","\u{1e6c}\u{300}","\u{54}\u{323}\u{300}"],["\u{1ee4}\u{300}","\u{55}\u{323}\u{300}","\u{1ee4}\u{300}","\u{55}\u{323}\u{300}"],["\u{1e7e}\u{300}","\u{56}\u{323}\u{300}","\u{1e7e}\u{300}","\u{56}\u{323}\u{300}"],["\u{1e88}\u{300}","\u{57}\u{323}\u{300}","\u{1e88}\u{300}","\u{57}\u{323}\u{300}"],["\u{58}\u{323}\u{300}","\u{58}\u{323}\u{300}","\u{58}\u{323}\u{300}","\u{58}\u{323}\u{300}"],["\u{1ef4}\u{300}","\u{59}\u{323}\u{300}","\u{1ef4}\u{300}","\u{59}\u{323}\u{300}"],["\u{1e92}\u{300}","\u{5a}\u{323}\u{300}","\u{1e92}\u{300}","\u{5a}\u{323}\u{300}"],["\u{5b}\u{323}\u{300}","\u{5b}\u{323}\u{300}","\u{5b}\u{323}\u{300}","\u{5b}\u{323}\u{300}"],["\u{5c}\u{323}\u{300}","\u{5c}\u{323}\u{300}","\u{5c}\u{323}\u{300}","\u{5c}\u{323}\u{300}"],["\u{5d}\u{323}\u{300}","\u{5d}\u{323}\u{300}","\u{5d}\u{323}\u{300}","\u{5d}\u{323}\u{300}"],["\u{5e}\u{323}\u{300}","\u{5e}\u{323}\u{300}","\u{5e}\u{323}\u{300}","\u{5e}\u{323}\u{300}"],["\u{5f}\u{323}\u{300}","\u{5f}\u{323}\u{300}","\u{5f}\u{323}\u{300}","\u{5f}\u{323}\u{300}"],["\u{60}\u{323}\u{300}","\u{60}\u{323}\u{300}","\u{60}\u{323}\u{300}","\u{60}\u{323}\u{300}"],["\u{1ea1}\u{300}","\u{61}\u{323}\u{300}","\u{1ea1}\u{300}","\u{61}\u{323}\u{300}"],["\u{1e05}\u{300}","\u{62}\u{323}\u{300}","\u{1e05}\u{300}","\u{62}\u{323}\u{300}"],["\u{63}\u{323}\u{300}","\u{63}\u{323}\u{300}","\u{63}\u{323}\u{300}","\u{63}\u{323}\u{300}"],["\u{1e0d}\u{300}","\u{64}\u{323}\u{300}","\u{1e0d}\u{300}","\u{64}\u{323}\u{300}"],["\u{1eb9}\u{300}","\u{65}\u{323}\u{300}","\u{1eb9}\u{300}","\u{65}\u{323}\u{300}"],["\u{66}\u{323}\u{300}","\u{66}\u{323}\u{300}","\u{66}\u{323}\u{300}","\u{66}\u{323}\u{300}"],["\u{67}\u{323}\u{300}","\u{67}\u{323}\u{300}","\u{67}\u{323}\u{300}","\u{67}\u{323}\u{300}"],["\u{1e25}\u{300}","\u{68}\u{323}\u{300}","\u{1e25}\u{300}","\u{68}\u{323}\u{300}"],["\u{1ecb}\u{300}","\u{69}\u{323}\u{300}","\u{1ecb}\u{300}","\u{69}\u{323}\u{300}"],["\u{6a}\u{323}\u{300}","\u{6a}\u{323}\u{300}","\u{6a}\u{323}\u{300}","\u{6a}\u{323}\u{300}"],["\u{1e33}\u{300}","\u{6b}\u{323}\u{300}","\u{1e33}\u{300}","\u{6b}\u{323}\u{300}"],["\u{1e37}\u{300}","\u{6c}\u{323}\u{300}","\u{1e37}\u{300}","\u{6c}\u{323}\u{300}"],["\u{1e43}\u{300}","\u{6d}\u{323}\u{300}","\u{1e43}\u{300}","\u{6d}\u{323}\u{300}"],["\u{1e47}\u{300}","\u{6e}\u{323}\u{300}","\u{1e47}\u{300}","\u{6e}\u{323}\u{300}"],["\u{1ecd}\u{300}","\u{6f}\u{323}\u{300}","\u{1ecd}\u{300}","\u{6f}\u{323}\u{300}"],["\u{70}\u{323}\u{300}","\u{70}\u{323}\u{300}","\u{70}\u{323}\u{300}","\u{70}\u{323}\u{300}"],["\u{71}\u{323}\u{300}","\u{71}\u{323}\u{300}","\u{71}\u{323}\u{300}","\u{71}\u{323}\u{300}"],["\u{1e5b}\u{300}","\u{72}\u{323}\u{300}","\u{1e5b}\u{300}","\u{72}\u{323}\u{300}"],["\u{1e63}\u{300}","\u{73}\u{323}\u{300}","\u{1e63}\u{300}","\u{73}\u{323}\u{300}"],["\u{1e6d}\u{300}","\u{74}\u{323}\u{300}","\u{1e6d}\u{300}","\u{74}\u{323}\u{300}"],["\u{1ee5}\u{300}","\u{75}\u{323}\u{300}","\u{1ee5}\u{300}","\u{75}\u{323}\u{300}"],["\u{1e7f}\u{300}","\u{76}\u{323}\u{300}","\u{1e7f}\u{300}","\u{76}\u{323}\u{300}"],["\u{1e89}\u{300}","\u{77}\u{323}\u{300}","\u{1e89}\u{300}","\u{77}\u{323}\u{300}"],["\u{78}\u{323}\u{300}","\u{78}\u{323}\u{300}","\u{78}\u{323}\u{300}","\u{78}\u{323}\u{300}"],["\u{1ef5}\u{300}","\u{79}\u{323}\u{300}","\u{1ef5}\u{300}","\u{79}\u{323}\u{300}"],["\u{1e93}\u{300}","\u{7a}\u{323}\u{300}","\u{1e93}\u{300}","\u{7a}\u{323}\u{300}"]],
[["\u{1ea0}\u{301}","\u{41}\u{323}\u{301}","\u{1ea0}\u{301}","\u{41}\u{323}\u{301}"],["\u{1e04}\u{301}","\u{42}\u{323}\u{301}","\u{1e04}\u{301}","\u{42}\u{323}\u{301}"],["\u{106}\u{323}","\u{43}\u{323}\u{301}","\u{106}\u{323}","\u{43}\u{323}\u{301}"],["\u{1e0c}\u{301}","\u{44}\u{323}\u{301}","\u{1e0c}\u{301}","\u{44}\u{323}\u{301}"],["\u{1eb8}\u{301}","\u{45}\u{323}\u{301}","\u{1eb8}\u{301}","\u{45}\u{323}\u{301}"],["\u{46}\u{323}\u{301}","\u{46}\u{323}\u{301}","\u{46}\u{323}\u{301}","\u{46}\u{323}\u{301}"],["\u{1f4}\u{323}","\u{47}\u{323}\u{301}","\u{1f4}\u{323}","\u{47}\u{323}\u{301}"],["\u{1e24}\u{301}","\u{48}\u{323}\u{301}","\u{1e24}\u{301}","\u{48}\u{323}\u{301}"],["\u{1eca}\u{301}","\u{49}\u{323}\u{301}","\u{1eca}\u{301}","\u{49}\u{323}\u{301}"],["\u{4a}\u{323}\u{301}","\u{4a}\u{323}\u{301}","\u{4a}\u{323}\u{301}","\u{4a}\u{323}\u{301}"],["\u{1e32}\u{301}","\u{4b}\u{323}\u{301}","\u{1e32}\u{301}","\u{4b}\u{323}\u{301}"],["\u{1e36}\u{301}","\u{4c}\u{323}\u{301}","\u{1e36}\u{301}","\u{4c}\u{323}\u{301}"],["\u{1e42}\u{301}","\u{4d}\u{323}\u{301}","\u{1e42}\u{301}","\u{4d}\u{323}\u{301}"],["\u{1e46}\u{301}","\u{4e}\u{323}\u{301}","\u{1e46}\u{301}","\u{4e}\u{323}\u{301}"],["\u{1ecc}\u{301}","\u{4f}\u{323}\u{301}","\u{1ecc}\u{301}","\u{4f}\u{323}\u{301}"],["\u{1e54}\u{323}","\u{50}\u{323}\u{301}","\u{1e54}\u{323}","\u{50}\u{323}\u{301}"],["\u{51}\u{323}\u{301}","\u{51}\u{323}\u{301}","\u{51}\u{323}\u{301}","\u{51}\u{323}\u{301}"],["\u{1e5a}\u{301}","\u{52}\u{323}\u{301}","\u{1e5a}\u{301}","\u{52}\u{323}\u{301}"],["\u{1e62}\u{301}","\u{53}\u{323}\u{301}","\u{1e62}\u{301}","\u{53}\u{323}\u{301}"],["\u{1e6c}\u{301}","\u{54}\u{323}\u{301}","\u{1e6c}\u{301}","\u{54}\u{323}\u{301}"],["\u{1ee4}\u{301}","\u{55}\u{323}\u{301}","\u{1ee4}\u{301}","\u{55}\u{323}\u{301}"],["\u{1e7e}\u{301}","\u{56}\u{323}\u{301}","\u{1e7e}\u{301}","\u{56}\u{323}\u{301}"],["\u{1e88}\u{301}","\u{57}\u{323}\u{301}","\u{1e88}\u{301}","\u{57}\u{323}\u{301}"],["\u{58}\u{323}\u{301}","\u{58}\u{323}\u{301}","\u{58}\u{323}\u{301}","\u{58}\u{323}\u{301}"],["\u{1ef4}\u{301}","\u{59}\u{323}\u{301}","\u{1ef4}\u{301}","\u{59}\u{323}\u{301}"],["\u{1e92}\u{301}","\u{5a}\u{323}\u{301}","\u{1e92}\u{301}","\u{5a}\u{323}\u{301}"],["\u{5b}\u{323}\u{301}","\u{5b}\u{323}\u{301}","\u{5b}\u{323}\u{301}","\u{5b}\u{323}\u{301}"],["\u{5c}\u{323}\u{301}","\u{5c}\u{323}\u{301}","\u{5c}\u{323}\u{301}","\u{5c}\u{323}\u{301}"],["\u{5d}\u{323}\u{301}","\u{5d}\u{323}\u{301}","\u{5d}\u{323}\u{301}","\u{5d}\u{323}\u{301}"],["\u{5e}\u{323}\u{301}","\u{5e}\u{323}\u{301}","\u{5e}\u{323}\u{301}","\u{5e}\u{323}\u{301}"],["\u{5f}\u{323}\u{301}","\u{5f}\u{323}\u{301}","\u{5f}\u{323}\u{301}","\u{5f}\u{323}\u{301}"],["\u{60}\u{323}\u{301}","\u{60}\u{323}\u{301}","\u{60}\u{323}\u{301}","\u{60}\u{323}\u{301}"],["\u{1ea1}\u{301}","\u{61}\u{323}\u{301}","\u{1ea1}\u{301}","\u{61}\u{323}\u{301}"],["\u{1e05}\u{301}","\u{62}\u{323}\u{301}","\u{1e05}\u{301}","\u{62}\u{323}\u{301}"],["\u{107}\u{323}","\u{63}\u{323}\u{301}","\u{107}\u{323}","\u{63}\u{323}\u{301}"],["\u{1e0d}\u{301}","\u{64}\u{323}\u{301}","\u{1e0d}\u{301}","\u{64}\u{323}\u{301}"],["\u{1eb9}\u{301}","\u{65}\u{323}\u{301}","\u{1eb9}\u{301}","\u{65}\u{323}\u{301}"],["\u{66}\u{323}\u{301}","\u{66}\u{323}\u{301}","\u{66}\u{323}\u{301}","\u{66}\u{323}\u{301}"],["\u{1f5}\u{323}","\u{67}\u{323}\u{301}","\u{1f5}\u{323}","\u{67}\u{323}\u{301}"],["\u{1e25}\u{301}","\u{68}\u{323}\u{301}","\u{1e25}\u{301}","\u{68}\u{323}\u{301}"],["\u{1ecb}\u{301}","\u{69}\u{323}\u{301}","\u{1ecb}\u{301}","\u{69}\u{323}\u{301}"],["\u{6a}\u{323}\u{301}","\u{6a}\u{323}\u{301}","\u{6a}\u{323}\u{301}","\u{6a}\u{323}\u{301}"],["\u{1e33}\u{301}","\u{6b}\u{323}\u{301}","\u{1e33}\u{301}","\u{6b}\u{323}\u{301}"],["\u{1e37}\u{301}","\u{6c}\u{323}\u{301}","\u{1e37}\u{301}","\u{6c}\u{323}\u{301}"],["\u{1e43}\u{301}","\u{6d}\u{323}\u{301}","\u{1e43}\u{301}","\u{6d}\u{323}\u{301}"],["\u{1e47}\u{301}","\u{6e}\u{323}\u{301}","\u{1e47}\u{301}","\u{6e}\u{323}\u{301}"],["\u{1ecd}\u{301}","\u{6f}\u{323}\u{301}","\u{1ecd}\u{301}","\u{6f}\u{323}\u{301}"],["\u{1e55}\u{323}","\u{70}\u{323}\u{301}","\u{1e55}\u{323}","\u{70}\u{323}\u{301}"],["\u{71}\u{323}\u{301}","\u{71}\u{323}\u{301}","\u{71}\u{323}\u{301}","\u{71}\u{323}\u{301}"],["\u{1e5b}\u{301}","\u{72}\u{323}\u{301}","\u{1e5b}\u{301}","\u{72}\u{323}\u{301}"],["\u{1e63}\u{301}","\u{73}\u{323}\u{301}","\u{1e63}\u{301}","\u{73}\u{323}\u{301}"],["\u{1e6d}\u{301}","\u{74}\u{323}\u{301}","\u{1e6d}\u{301}","\u{74}\u{323}\u{301}"],["\u{1ee5}\u{301}","\u{75}\u{323}\u{301}","\u{1ee5}\u{301}","\u{75}\u{323}\u{301}"],["\u{1e7f}\u{301}","\u{76}\u{323}\u{301}","\u{1e7f}\u{301}","\u{76}\u{323}\u{301}"],["\u{1e89}\u{301}","\u{77}\u{323}\u{301}","\u{1e89}\u{301}","\u{77}\u{323}\u{301}"],["\u{78}\u{323}\u{301}","\u{78}\u{323}\u{301}","\u{78}\u{323}\u{301}","\u{78}\u{323}\u{301}"],["\u{1ef5}\u{301}","\u{79}\u{323}\u{301}","\u{1ef5}\u{301}","\u{79}\u{323}\u{301}"],["\u{1e93}\u{301}","\u{7a}\u{323}\u{301}","\u{1e93}\u{301}","\u{7a}\u{323}\u{301}"]],
[["\u{1eac}","\u{41}\u{323}\u{302}","\u{1eac}","\u{41}\u{323}\u{302}"],["\u{1e04}\u{302}","\u{42}\u{323}\u{302}","\u{1e04}\u{302}","\u{42}\u{323}\u{302}"],["\u{108}\u{323}","\u{43}\u{323}\u{302}","\u{108}\u{323}","\u{43}\u{323}\u{302}"],["\u{1e0c}\u{302}","\u{44}\u{323}\u{302}","\u{1e0c}\u{302}","\u{44}\u{323}\u{302}"],["\u{1ec6}","\u{45}\u{323}\u{302}","\u{1ec6}","\u{45}\u{323}\u{302}"],["\u{46}\u{323}\u{302}","\u{46}\u{323}\u{302}","\u{46}\u{323}\u{302}","\u{46}\u{323}\u{302}"],["\u{11c}\u{323}","\u{47}\u{323}\u{302}","\u{11c}\u{323}","\u{47}\u{323}\u{302}"],["\u{1e24}\u{302}","\u{48}\u{323}\u{302}","\u{1e24}\u{302}","\u{48}\u{323}\u{302}"],["\u{1eca}\u{302}","\u{49}\u{323}\u{302}","\u{1eca}\u{302}","\u{49}\u{323}\u{302}"],["\u{134}\u{323}","\u{4a}\u{323}\u{302}","\u{134}\u{323}","\u{4a}\u{323}\u{302}"],["\u{1e32}\u{302}","\u{4b}\u{323}\u{302}","\u{1e32}\u{302}","\u{4b}\u{323}\u{302}"],["\u{1e36}\u{302}","\u{4c}\u{323}\u{302}","\u{1e36}\u{302}","\u{4c}\u{323}\u{302}"],["\u{1e42}\u{302}","\u{4d}\u{323}\u{302}","\u{1e42}\u{302}","\u{4d}\u{323}\u{302}"],["\u{1e46}\u{302}","\u{4e}\u{323}\u{302}","\u{1e46}\u{302}","\u{4e}\u{323}\u{302}"],["\u{1ed8}","\u{4f}\u{323}\u{302}","\u{1ed8}","\u{4f}\u{323}\u{302}"],["\u{50}\u{323}\u{302}","\u{50}\u{323}\u{302}","\u{50}\u{323}\u{302}","\u{50}\u{323}\u{302}"],["\u{51}\u{323}\u{302}","\u{51}\u{323}\u{302}","\u{51}\u{323}\u{302}","\u{51}\u{323}\u{302}"],["\u{1e5a}\u{302}","\u{52}\u{323}\u{302}","\u{1e5a}\u{302}","\u{52}\u{323}\u{302}"],["\u{1e62}\u{302}","\u{53}\u{323}\u{302}","\u{1e62}\u{302}","\u{53}\u{323}\u{302}"],["\u{1e6c}\u{302}","\u{54}\u{323}\u{302}","\u{1e6c}\u{302}","\u{54}\u{323}\u{302}"],["\u{1ee4}\u{302}","\u{55}\u{323}\u{302}","\u{1ee4}\u{302}","\u{55}\u{323}\u{302}"],["\u{1e7e}\u{302}","\u{56}\u{323}\u{302}","\u{1e7e}\u{302}","\u{56}\u{323}\u{302}"],["\u{1e88}\u{302}","\u{57}\u{323}\u{302}","\u{1e88}\u{302}","\u{57}\u{323}\u{302}"],["\u{58}\u{323}\u{302}","\u{58}\u{323}\u{302}","\u{58}\u{323}\u{302}","\u{58}\u{323}\u{302}"],["\u{1ef4}\u{302}","\u{59}\u{323}\u{302}","\u{1ef4}\u{302}","\u{59}\u{323}\u{302}"],["\u{1e92}\u{302}","\u{5a}\u{323}\u{302}","\u{1e92}\u{302}","\u{5a}\u{323}\u{302}"],["\u{5b}\u{323}\u{302}","\u{5b}\u{323}\u{302}","\u{5b}\u{323}\u{302}","\u{5b}\u{323}\u{302}"],["\u{5c}\u{323}\u{302}","\u{5c}\u{323}\u{302}","\u{5c}\u{323}\u{302}","\u{5c}\u{323}\u{302}"],["\u{5d}\u{323}\u{302}","\u{5d}\u{323}\u{302}","\u{5d}\u{323}\u{302}","\u{5d}\u{323}\u{302}"],["\u{5e}\u{323}\u{302}","\u{5e}\u{323}\u{302}","\u{5e}\u{323}\u{302}","\u{5e}\u{323}\u{302}"],["\u{5f}\u{323}\u{302}","\u{5f}\u{323}\u{302}","\u{5f}\u{323}\u{302}","\u{5f}\u{323}\u{302}"],["\u{60}\u{323}\u{302}","\u{60}\u{323}\u{302}","\u{60}\u{323}\u{302}","\u{60}\u{323}\u{302}"],["\u{1ead}","\u{61}\u{323}\u{302}","\u{1ead}","\u{61}\u{323}\u{302}"],["\u{1e05}\u{302}","\u{62}\u{323}\u{302}","\u{1e05}\u{302}","\u{62}\u{323}\u{302}"],["\u{109}\u{323}","\u{63}\u{323}\u{302}","\u{109}\u{323}","\u{63}\u{323}\u{302}"],["\u{1e0d}\u{302}","\u{64}\u{323}\u{302}","\u{1e0d}\u{302}","\u{64}\u{323}\u{302}"],["\u{1ec7}","\u{65}\u{323}\u{302}","\u{1ec7}","\u{65}\u{323}\u{302}"],["\u{66}\u{323}\u{302}","\u{66}\u{323}\u{302}","\u{66}\u{323}\u{302}","\u{66}\u{323}\u{302}"],["\u{11d}\u{323}","\u{67}\u{323}\u{302}","\u{11d}\u{323}","\u{67}\u{323}\u{302}"],["\u{1e25}\u{302}","\u{68}\u{323}\u{302}","\u{1e25}\u{302}","\u{68}\u{323}\u{302}"],["\u{1ecb}\u{302}","\u{69}\u{323}\u{302}","\u{1ecb}\u{302}","\u{69}\u{323}\u{302}"],["\u{135}\u{323}","\u{6a}\u{323}\u{302}","\u{135}\u{323}","\u{6a}\u{323}\u{302}"],["\u{1e33}\u{302}","\u{6b}\u{323}\u{302}","\u{1e33}\u{302}","\u{6b}\u{323}\u{302}"],["\u{1e37}\u{302}","\u{6c}\u{323}\u{302}","\u{1e37}\u{302}","\u{6c}\u{323}\u{302}"],["\u{1e43}\u{302}","\u{6d}\u{323}\u{302}","\u{1e43}\u{302}","\u{6d}\u{323}\u{302}"],["\u{1e47}\u{302}","\u{6e}\u{323}\u{302}","\u{1e47}\u{302}","\u{6e}\u{323}\u{302}"],["\u{1ed9}","\u{6f}\u{323}\u{302}","\u{1ed9}","\u{6f}\u{323}\u{302}"],["\u{70}\u{323}\u{302}","\u{70}\u{323}\u{302}","\u{70}\u{323}\u{302}","\u{70}\u{323}\u{302}"],["\u{71}\u{323}\u{302}","\u{71}\u{323}\u{302}","\u{71}\u{323}\u{302}","\u{71}\u{323}\u{302}"],["\u{1e5b}\u{302}","\u{72}\u{323}\u{302}","\u{1e5b}\u{302}","\u{72}\u{323}\u{302}"],["\u{1e63}\u{302}","\u{73}\u{323}\u{302}","\u{1e63}\u{302}","\u{73}\u{323}\u{302}"],["\u{1e6d}\u{302}","\u{74}\u{323}\u{302}","\u{1e6d}\u{302}","\u{74}\u{323}\u{302}"],["\u{1ee5}\u{302}","\u{75}\u{323}\u{302}","\u{1ee5}\u{302}","\u{75}\u{323}\u{302}"],["\u{1e7f}\u{302}","\u{76}\u{323}\u{302}","\u{1e7f}\u{302}","\u{76}\u{323}\u{302}"],["\u{1e89}\u{302}","\u{77}\u{323}\u{302}","\u{1e89}\u{302}","\u{77}\u{323}\u{302}"],["\u{78}\u{323}\u{302}","\u{78}\u{323}\u{302}","\u{78}\u{323}\u{302}","\u{78}\u{323}\u{302}"],["\u{1ef5}\u{302}","\u{79}\u{323}\u{302}","\u{1ef5}\u{302}","\u{79}\u{323}\u{302}"],["\u{1e93}\u{302}","\u{7a}\u{323}\u{302}","\u{1e93}\u{302}","\u{7a}\u{323}\u{302}"]],
[["\u{1ea0}\u{303}","\u{41}\u{323}\u{303}","\u{1ea0}\u{303}","\u{41}\u{323}\u{303}"],["\u{1e04}\u{303}","\u{42}\u{323}\u{303}","\u{1e04}\u{303}","\u{42}\u{323}\u{303}"],["\u{43}\u{323}\u{303}","\u{43}\u{323}\u{303}","\u{43}\u{323}\u{303}","\u{43}\u{323}\u{303}"],["\u{1e0c}\u{303}","\u{44}\u{323}\u{303}","\u{1e0c}\u{303}","\u{44}\u{323}\u{303}"],["\u{1eb8}\u{303}","\u{45}\u{323}\u{303}","\u{1eb8}\u{303}","\u{45}\u{323}\u{303}"],["\u{46}\u{323}\u{303}","\u{46}\u{323}\u{303}","\u{46}\u{323}\u{303}","\u{46}\u{323}\u{303}"],["\u{47}\u{323}\u{303}","\u{47}\u{323}\u{303}","\u{47}\u{323}\u{303}","\u{47}\u{323}\u{303}"],["\u{1e24}\u{303}","\u{48}\u{323}\u{303}","\u{1e24}\u{303}","\u{48}\u{323}\u{303}"],["\u{1eca}\u{303}","\u{49}\u{323}\u{303}","\u{1eca}\u{303}","\u{49}\u{323}\u{303}"],["\u{4a}\u{323}\u{303}","\u{4a}\u{323}\u{303}","\u{4a}\u{323}\u{303}","\u{4a}\u{323}\u{303}"],["\u{1e32}\u{303}","\u{4b}\u{323}\u{303}","\u{1e32}\u{303}","\u{4b}\u{323}\u{303}"],["\u{1e36}\u{303}","\u{4c}\u{323}\u{303}","\u{1e36}\u{303}","\u{4c}\u{323}\u{303}"],["\u{1e42}\u{303}","\u{4d}\u{323}\u{303}","\u{1e42}\u{303}","\u{4d}\u{323}\u{303}"],["\u{1e46}\u{303}","\u{4e}\u{323}\u{303}","\u{1e46}\u{303}","\u{4e}\u{323}\u{303}"],["\u{1ecc}\u{303}","\u{4f}\u{323}\u{303}","\u{1ecc}\u{303}","\u{4f}\u{323}\u{303}"],["\u{50}\u{323}\u{303}","\u{50}\u{323}\u{303}","\u{50}\u{323}\u{303}","\u{50}\u{323}\u{303}"],["\u{51}\u{323}\u{303}","\u{51}\u{323}\u{303}","\u{51}\u{323}\u{303}","\u{51}\u{323}\u{303}"],["\u{1e5a}\u{303}","\u{52}\u{323}\u{303}","\u{1e5a}\u{303}","\u{52}\u{323}\u{303}"],["\u{1e62}\u{303}","\u{53}\u{323}\u{303}","\u{1e62}\u{303}","\u{53}\u{323}\u{303}"],["\u{1e6c}\u{303}","\u{54}\u{323}\u{303}","\u{1e6c}\u{303}","\u{54}\u{323}\u{303}"],["\u{1ee4}\u{303}","\u{55}\u{323}\u{303}","\u{1ee4}\u{303}","\u{55}\u{323}\u{303}"],["\u{1e7e}\u{303}","\u{56}\u{323}\u{303}","\u{1e7e}\u{303}","\u{56}\u{323}\u{303}"],["\u{1e88}\u{303}","\u{57}\u{323}\u{303}","\u{1e88}\u{303}","\u{57}\u{323}\u{303}"],["\u{58}\u{323}\u{303}","\u{58}\u{323}\u{303}","\u{58}\u{323}\u{303}","\u{58}\u{323}\u{303}"],["\u{1ef4}\u{303}","\u{59}\u{323}\u{303}","\u{1ef4}\u{303}","\u{59}\u{323}\u{303}"],["\u{1e92}\u{303}","\u{5a}\u{323}\u{303}","\u{1e92}\u{303}","\u{5a}\u{323}\u{303}"],["\u{5b}\u{323}\u{303}","\u{5b}\u{323}\u{303}","\u{5b}\u{323}\u{303}","\u{5b}\u{323}\u{303}"],["\u{5c}\u{323}\u{303}","\u{5c}\u{323}\u{303}","\u{5c}\u{323}\u{303}","\u{5c}\u{323}\u{303}"],["\u{5d}\u{323}\u{303}","\u{5d}\u{323}\u{303}","\u{5d}\u{323}\u{303}","\u{5d}\u{323}\u{303}"],["\u{5e}\u{323}\u{303}","\u{5e}\u{323}\u{303}","\u{5e}\u{323}\u{303}","\u{5e}\u{323}\u{303}"],["\u{5f}\u{323}\u{303}","\u{5f}\u{323}\u{303}","\u{5f}\u{323}\u{303}","\u{5f}\u{323}\u{303}"],["\u{60}\u{323}\u{303}","\u{60}\u{323}\u{303}","\u{60}\u{323}\u{303}","\u{60}\u{323}\u{303}"],["\u{1ea1}\u{303}","\u{61}\u{323}\u{303}","\u{1ea1}\u{303}","\u{61}\u{323}\u{303}"],["\u{1e05}\u{303}","\u{62}\u{323}\u{303}","\u{1e05}\u{303}","\u{62}\u{323}\u{303}"],["\u{63}\u{323}\u{303}","\u{63}\u{323}\u{303}","\u{63}\u{323}\u{303}","\u{63}\u{323}\u{303}"],["\u{1e0d}\u{303}","\u{64}\u{323}\u{303}","\u{1e0d}\u{303}","\u{64}\u{323}\u{303}"],["\u{1eb9}\u{303}","\u{65}\u{323}\u{303}","\u{1eb9}\u{303}","\u{65}\u{323}\u{303}"],["\u{66}\u{323}\u{303}","\u{66}\u{323}\u{303}","\u{66}\u{323}\u{303}","\u{66}\u{323}\u{303}"],["\u{67}\u{323}\u{303}","\u{67}\u{323}\u{303}","\u{67}\u{323}\u{303}","\u{67}\u{323}\u{303}"],["\u{1e25}\u{303}","\u{68}\u{323}\u{303}","\u{1e25}\u{303}","\u{68}\u{323}\u{303}"],["\u{1ecb}\u{303}","\u{69}\u{323}\u{303}","\u{1ecb}\u{303}","\u{69}\u{323}\u{303}"],["\u{6a}\u{323}\u{303}","\u{6a}\u{323}\u{303}","\u{6a}\u{323}\u{303}","\u{6a}\u{323}\u{303}"],["\u{1e33}\u{303}","\u{6b}\u{323}\u{303}","\u{1e33}\u{303}","\u{6b}\u{323}\u{303}"],["\u{1e37}\u{303}","\u{6c}\u{323}\u{303}","\u{1e37}\u{303}","\u{6c}\u{323}\u{303}"],["\u{1e43}\u{303}","\u{6d}\u{323}\u{303}","\u{1e43}\u{303}","\u{6d}\u{323}\u{303}"],["\u{1e47}\u{303}","\u{6e}\u{323}\u{303}","\u{1e47}\u{303}","\u{6e}\u{323}\u{303}"],["\u{1ecd}\u{303}","\u{6f}\u{323}\u{303}","\u{1ecd}\u{303}","\u{6f}\u{323}\u{303}"],["\u{70}\u{323}\u{303}","\u{70}\u{323}\u{303}","\u{70}\u{323}\u{303}","\u{70}\u{323}\u{303}"],["\u{71}\u{323}\u{303}","\u{71}\u{323}\u{303}","\u{71}\u{323}\u{303}","\u{71}\u{323}\u{303}"],["\u{1e5b}\u{303}","\u{72}\u{323}\u{303}","\u{1e5b}\u{303}","\u{72}\u{323}\u{303}"],["\u{1e63}\u{303}","\u{73}\u{323}\u{303}","\u{1e63}\u{303}","\u{73}\u{323}\u{303}"],["\u{1e6d}\u{303}","\u{74}\u{323}\u{303}","\u{1e6d}\u{303}","\u{74}\u{323}\u{303}"],["\u{1ee5}\u{303}","\u{75}\u{323}\u{303}","\u{1ee5}\u{303}","\u{75}\u{323}\u{303}"],["\u{1e7f}\u{303}","\u{76}\u{323}\u{303}","\u{1e7f}\u{303}","\u{76}\u{323}\u{303}"],["\u{1e89}\u{303}","\u{77}\u{323}\u{303}","\u{1e89}\u{303}","\u{77}\u{323}\u{303}"],["\u{78}\u{323}\u{303}","\u{78}\u{323}\u{303}","\u{78}\u{323}\u{303}","\u{78}\u{323}\u{303}"],["\u{1ef5}\u{303}","\u{79}\u{323}\u{303}","\u{1ef5}\u{303}","\u{79}\u{323}\u{303}"],["\u{1e93}\u{303}","\u{7a}\u{323}\u{303}","\u{1e93}\u{303}","\u{7a}\u{323}\u{303}"]],
[["\u{1ea0}\u{308}","\u{41}\u{323}\u{308}","\u{1ea0}\u{308}","\u{41}\u{323}\u{308}"],["\u{1e04}\u{308}","\u{42}\u{323}\u{308}","\u{1e04}\u{308}","\u{42}\u{323}\u{308}"],["\u{43}\u{323}\u{308}","\u{43}\u{323}\u{308}","\u{43}\u{323}\u{308}","\u{43}\u{323}\u{308}"],["\u{1e0c}\u{308}","\u{44}\u{323}\u{308}","\u{1e0c}\u{308}","\u{44}\u{323}\u{308}"],["\u{1eb8}\u{308}","\u{45}\u{323}\u{308}","\u{1eb8}\u{308}","\u{45}\u{323}\u{308}"],["\u{46}\u{323}\u{308}","\u{46}\u{323}\u{308}","\u{46}\u{323}\u{308}","\u{46}\u{323}\u{308}"],["\u{47}\u{323}\u{308}","\u{47}\u{323}\u{308}","\u{47}\u{323}\u{308}","\u{47}\u{323}\u{308}"],["\u{1e24}\u{308}","\u{48}\u{323}\u{308}","\u{1e24}\u{308}","\u{48}\u{323}\u{308}"],["\u{1eca}\u{308}","\u{49}\u{323}\u{308}","\u{1eca}\u{308}","\u{49}\u{323}\u{308}"],["\u{4a}\u{323}\u{308}","\u{4a}\u{323}\u{308}","\u{4a}\u{323}\u{308}","\u{4a}\u{323}\u{308}"],["\u{1e32}\u{308}","\u{4b}\u{323}\u{308}","\u{1e32}\u{308}","\u{4b}\u{323}\u{308}"],["\u{1e36}\u{308}","\u{4c}\u{323}\u{308}","\u{1e36}\u{308}","\u{4c}\u{323}\u{308}"],["\u{1e42}\u{308}","\u{4d}\u{323}\u{308}","\u{1e42}\u{308}","\u{4d}\u{323}\u{308}"],["\u{1e46}\u{308}","\u{4e}\u{323}\u{308}","\u{1e46}\u{308}","\u{4e}\u{323}\u{308}"],["\u{1ecc}\u{308}","\u{4f}\u{323}\u{308}","\u{1ecc}\u{308}","\u{4f}\u{323}\u{308}"],["\u{50}\u{323}\u{308}","\u{50}\u{323}\u{308}","\u{50}\u{323}\u{308}","\u{50}\u{323}\u{308}"],["\u{51}\u{323}\u{308}","\u{51}\u{323}\u{308}","\u{51}\u{323}\u{308}","\u{51}\u{323}\u{308}"],["\u{1e5a}\u{308}","\u{52}\u{323}\u{308}","\u{1e5a}\u{308}","\u{52}\u{323}\u{308}"],["\u{1e62}\u{308}","\u{53}\u{323}\u{308}","\u{1e62}\u{308}","\u{53}\u{323}\u{308}"],["\u{1e6c}\u{308}","\u{54}\u{323}\u{308}","\u{1e6c}\u{308}","\u{54}\u{323}\u{308}"],["\u{1ee4}\u{308}","\u{55}\u{323}\u{308}","\u{1ee4}\u{308}","\u{55}\u{323}\u{308}"],["\u{1e7e}\u{308}","\u{56}\u{323}\u{308}","\u{1e7e}\u{308}","\u{56}\u{323}\u{308}"],["\u{1e88}\u{308}","\u{57}\u{323}\u{308}","\u{1e88}\u{308}","\u{57}\u{323}\u{308}"],["\u{1e8c}\u{323}","\u{58}\u{323}\u{308}","\u{1e8c}\u{323}","\u{58}\u{323}\u{308}"],["\u{1ef4}\u{308}","\u{59}\u{323}\u{308}","\u{1ef4}\u{308}","\u{59}\u{323}\u{308}"],["\u{1e92}\u{308}","\u{5a}\u{323}\u{308}","\u{1e92}\u{308}","\u{5a}\u{323}\u{308}"],["\u{5b}\u{323}\u{308}","\u{5b}\u{323}\u{308}","\u{5b}\u{323}\u{308}","\u{5b}\u{323}\u{308}"],["\u{5c}\u{323}\u{308}","\u{5c}\u{323}\u{308}","\u{5c}\u{323}\u{308}","\u{5c}\u{323}\u{308}"],["\u{5d}\u{323}\u{308}","\u{5d}\u{323}\u{308}","\u{5d}\u{323}\u{308}","\u{5d}\u{323}\u{308}"],["\u{5e}\u{323}\u{308}","\u{5e}\u{323}\u{308}","\u{5e}\u{323}\u{308}","\u{5e}\u{323}\u{308}"],["\u{5f}\u{323}\u{308}","\u{5f}\u{323}\u{308}","\u{5f}\u{323}\u{308}","\u{5f}\u{323}\u{308}"],["\u{60}\u{323}\u{308}","\u{60}\u{323}\u{308}","\u{60}\u{323}\u{308}","\u{60}\u{323}\u{308}"],["\u{1ea1}\u{308}","\u{61}\u{323}\u{308}","\u{1ea1}\u{308}","\u{61}\u{323}\u{308}"],["\u{1e05}\u{308}","\u{62}\u{323}\u{308}","\u{1e05}\u{308}","\u{62}\u{323}\u{308}"],["\u{63}\u{323}\u{308}","\u{63}\u{323}\u{308}","\u{63}\u{323}\u{308}","\u{63}\u{323}\u{308}"],["\u{1e0d}\u{308}","\u{64}\u{323}\u{308}","\u{1e0d}\u{308}","\u{64}\u{323}\u{308}"],["\u{1eb9}\u{308}","\u{65}\u{323}\u{308}","\u{1eb9}\u{308}","\u{65}\u{323}\u{308}"],["\u{66}\u{323}\u{308}","\u{66}\u{323}\u{308}","\u{66}\u{323}\u{308}","\u{66}\u{323}\u{308}"],["\u{67}\u{323}\u{308}","\u{67}\u{323}\u{308}","\u{67}\u{323}\u{308}","\u{67}\u{323}\u{308}"],["\u{1e25}\u{308}","\u{68}\u{323}\u{308}","\u{1e25}\u{308}","\u{68}\u{323}\u{308}"],["\u{1ecb}\u{308}","\u{69}\u{323}\u{308}","\u{1ecb}\u{308}","\u{69}\u{323}\u{308}"],["\u{6a}\u{323}\u{308}","\u{6a}\u{323}\u{308}","\u{6a}\u{323}\u{308}","\u{6a}\u{323}\u{308}"],["\u{1e33}\u{308}","\u{6b}\u{323}\u{308}","\u{1e33}\u{308}","\u{6b}\u{323}\u{308}"],["\u{1e37}\u{308}","\u{6c}\u{323}\u{308}","\u{1e37}\u{308}","\u{6c}\u{323}\u{308}"],["\u{1e43}\u{308}","\u{6d}\u{323}\u{308}","\u{1e43}\u{308}","\u{6d}\u{323}\u{308}"],["\u{1e47}\u{308}","\u{6e}\u{323}\u{308}","\u{1e47}\u{308}","\u{6e}\u{323}\u{308}"],["\u{1ecd}\u{308}","\u{6f}\u{323}\u{308}","\u{1ecd}\u{308}","\u{6f}\u{323}\u{308}"],["\u{70}\u{323}\u{308}","\u{70}\u{323}\u{308}","\u{70}\u{323}\u{308}","\u{70}\u{323}\u{308}"],["\u{71}\u{323}\u{308}","\u{71}\u{323}\u{308}","\u{71}\u{323}\u{308}","\u{71}\u{323}\u{308}"],["\u{1e5b}\u{308}","\u{72}\u{323}\u{308}","\u{1e5b}\u{308}","\u{72}\u{323}\u{308}"],["\u{1e63}\u{308}","\u{73}\u{323}\u{308}","\u{1e63}\u{308}","\u{73}\u{323}\u{308}"],["\u{1e6d}\u{308}","\u{74}\u{323}\u{308}","\u{1e6d}\u{308}","\u{74}\u{323}\u{308}"],["\u{1ee5}\u{308}","\u{75}\u{323}\u{308}","\u{1ee5}\u{308}","\u{75}\u{323}\u{308}"],["\u{1e7f}\u{308}","\u{76}\u{323}\u{308}","\u{1e7f}\u{308}","\u{76}\u{323}\u{308}"],["\u{1e89}\u{308}","\u{77}\u{323}\u{308}","\u{1e89}\u{308}","\u{77}\u{323}\u{308}"],["\u{1e8d}\u{323}","\u{78}\u{323}\u{308}","\u{1e8d}\u{323}","\u{78}\u{323}\u{308}"],["\u{1ef5}\u{308}","\u{79}\u{323}\u{308}","\u{1ef5}\u{308}","\u{79}\u{323}\u{308}"],["\u{1e93}\u{308}","\u{7a}\u{323}\u{308}","\u{1e93}\u{308}","\u{7a}\u{323}\u{308}"]],
[["\u{1ea0}\u{323}","\u{41}\u{323}\u{323}","\u{1ea0}\u{323}","\u{41}\u{323}\u{323}"],["\u{1e04}\u{323}","\u{42}\u{323}\u{323}","\u{1e04}\u{323}","\u{42}\u{323}\u{323}"],["\u{43}\u{323}\u{323}","\u{43}\u{323}\u{323}","\u{43}\u{323}\u{323}","\u{43}\u{323}\u{323}"],["\u{1e0c}\u{323}","\u{44}\u{323}\u{323}","\u{1e0c}\u{323}","\u{44}\u{323}\u{323}"],["\u{1eb8}\u{323}","\u{45}\u{323}\u{323}","\u{1eb8}\u{323}","\u{45}\u{323}\u{323}"],["\u{46}\u{323}\u{323}","\u{46}\u{323}\u{323}","\u{46}\u{323}\u{323}","\u{46}\u{323}\u{323}"],["\u{47}\u{323}\u{323}","\u{47}\u{323}\u{323}","\u{47}\u{323}\u{323}","\u{47}\u{323}\u{323}"],["\u{1e24}\u{323}","\u{48}\u{323}\u{323}","\u{1e24}\u{323}","\u{48}\u{323}\u{323}"],["\u{1eca}\u{323}","\u{49}\u{323}\u{323}","\u{1eca}\u{323}","\u{49}\u{323}\u{323}"],["\u{4a}\u{323}\u{323}","\u{4a}\u{323}\u{323}","\u{4a}\u{323}\u{323}","\u{4a}\u{323}\u{323}"],["\u{1e32}\u{323}","\u{4b}\u{323}\u{323}","\u{1e32}\u{323}","\u{4b}\u{323}\u{323}"],["\u{1e36}\u{323}","\u{4c}\u{323}\u{323}","\u{1e36}\u{323}","\u{4c}\u{323}\u{323}"],["\u{1e42}\u{323}","\u{4d}\u{323}\u{323}","\u{1e42}\u{323}","\u{4d}\u{323}\u{323}"],["\u{1e46}\u{323}","\u{4e}\u{323}\u{323}","\u{1e46}\u{323}","\u{4e}\u{323}\u{323}"],["\u{1ecc}\u{323}","\u{4f}\u{323}\u{323}","\u{1ecc}\u{323}","\u{4f}\u{323}\u{323}"],["\u{50}\u{323}\u{323}","\u{50}\u{323}\u{323}","\u{50}\u{323}\u{323}","\u{50}\u{323}\u{323}"],["\u{51}\u{323}\u{323}","\u{51}\u{323}\u{323}","\u{51}\u{323}\u{323}","\u{51}\u{323}\u{323}"],["\u{1e5a}\u{323}","\u{52}\u{323}\u{323}","\u{1e5a}\u{323}","\u{52}\u{323}\u{323}"],["\u{1e62}\u{323}","\u{53}\u{323}\u{323}","\u{1e62}\u{323}","\u{53}\u{323}\u{323}"],["\u{1e6c}\u{323}","\u{54}\u{323}\u{323}","\u{1e6c}\u{323}","\u{54}\u{323}\u{323}"],["\u{1ee4}\u{323}","\u{55}\u{323}\u{323}","\u{1ee4}\u{323}","\u{55}\u{323}\u{323}"],["\u{1e7e}\u{323}","\u{56}\u{323}\u{323}","\u{1e7e}\u{323}","\u{56}\u{323}\u{323}"],["\u{1e88}\u{323}","\u{57}\u{323}\u{323}","\u{1e88}\u{323}","\u{57}\u{323}\u{323}"],["\u{58}\u{323}\u{323}","\u{58}\u{323}\u{323}","\u{58}\u{323}\u{323}","\u{58}\u{323}\u{323}"],["\u{1ef4}\u{323}","\u{59}\u{323}\u{323}","\u{1ef4}\u{323}","\u{59}\u{323}\u{323}"],["\u{1e92}\u{323}","\u{5a}\u{323}\u{323}","\u{1e92}\u{323}","\u{5a}\u{323}\u{323}"],["\u{5b}\u{323}\u{323}","\u{5b}\u{323}\u{323}","\u{5b}\u{323}\u{323}","\u{5b}\u{323}\u{323}"],["\u{5c}\u{323}\u{323}","\u{5c}\u{323}\u{323}","\u{5c}\u{323}\u{323}","\u{5c}\u{323}\u{323}"],["\u{5d}\u{323}\u{323}","\u{5d}\u{323}\u{323}","\u{5d}\u{323}\u{323}","\u{5d}\u{323}\u{323}"],["\u{5e}\u{323}\u{323}","\u{5e}\u{323}\u{323}","\u{5e}\u{323}\u{323}","\u{5e}\u{323}\u{323}"],["\u{5f}\u{323}\u{323}","\u{5f}\u{323}\u{323}","\u{5f}\u{323}\u{323}","\u{5f}\u{323}\u{323}"],["\u{60}\u{323}\u{323}","\u{60}\u{323}\u{323}","\u{60}\u{323}\u{323}","\u{60}\u{323}\u{323}"],["\u{1ea1}\u{323}","\u{61}\u{323}\u{323}","\u{1ea1}\u{323}","\u{61}\u{323}\u{323}"],["\u{1e05}\u{323}","\u{62}\u{323}\u{323}","\u{1e05}\u{323}","\u{62}\u{323}\u{323}"],["\u{63}\u{323}\u{323}","\u{63}\u{323}\u{323}","\u{63}\u{323}\u{323}","\u{63}\u{323}\u{323}"],["\u{1e0d}\u{323}","\u{64}\u{323}\u{323}","\u{1e0d}\u{323}","\u{64}\u{323}\u{323}"],["\u{1eb9}\u{323}","\u{65}\u{323}\u{323}","\u{1eb9}\u{323}","\u{65}\u{323}\u{323}"],["\u{66}\u{323}\u{323}","\u{66}\u{323}\u{323}","\u{66}\u{323}\u{323}","\u{66}\u{323}\u{323}"],["\u{67}\u{323}\u{323}","\u{67}\u{323}\u{323}","\u{67}\u{323}\u{323}","\u{67}\u{323}\u{323}"],["\u{1e25}\u{323}","\u{68}\u{323}\u{323}","\u{1e25}\u{323}","\u{68}\u{323}\u{323}"],["\u{1ecb}\u{323}","\u{69}\u{323}\u{323}","\u{1ecb}\u{323}","\u{69}\u{323}\u{323}"],["\u{6a}\u{323}\u{323}","\u{6a}\u{323}\u{323}","\u{6a}\u{323}\u{323}","\u{6a}\u{323}\u{323}"],["\u{1e33}\u{323}","\u{6b}\u{323}\u{323}","\u{1e33}\u{323}","\u{6b}\u{323}\u{323}"],["\u{1e37}\u{323}","\u{6c}\u{323}\u{323}","\u{1e37}\u{323}","\u{6c}\u{323}\u{323}"],["\u{1e43}\u{323}","\u{6d}\u{323}\u{323}","\u{1e43}\u{323}","\u{6d}\u{323}\u{323}"],["\u{1e47}\u{323}","\u{6e}\u{323}\u{323}","\u{1e47}\u{323}","\u{6e}\u{323}\u{323}"],["\u{1ecd}\u{323}","\u{6f}\u{323}\u{323}","\u{1ecd}\u{323}","\u{6f}\u{323}\u{323}"],["\u{70}\u{323}\u{323}","\u{70}\u{323}\u{323}","\u{70}\u{323}\u{323}","\u{70}\u{323}\u{323}"],["\u{71}\u{323}\u{323}","\u{71}\u{323}\u{323}","\u{71}\u{323}\u{323}","\u{71}\u{323}\u{323}"],["\u{1e5b}\u{323}","\u{72}\u{323}\u{323}","\u{1e5b}\u{323}","\u{72}\u{323}\u{323}"],["\u{1e63}\u{323}","\u{73}\u{323}\u{323}","\u{1e63}\u{323}","\u{73}\u{323}\u{323}"],["\u{1e6d}\u{323}","\u{74}\u{323}\u{323}","\u{1e6d}\u{323}","\u{74}\u{323}\u{323}"],["\u{1ee5}\u{323}","\u{75}\u{323}\u{323}","\u{1ee5}\u{323}","\u{75}\u{323}\u{323}"],["\u{1e7f}\u{323}","\u{76}\u{323}\u{323}","\u{1e7f}\u{323}","\u{76}\u{323}\u{323}"],["\u{1e89}\u{323}","\u{77}\u{323}\u{323}","\u{1e89}\u{323}","\u{77}\u{323}\u{323}"],["\u{78}\u{323}\u{323}","\u{78}\u{323}\u{323}","\u{78}\u{323}\u{323}","\u{78}\u{323}\u{323}"],["\u{1ef5}\u{323}","\u{79}\u{323}\u{323}","\u{1ef5}\u{323}","\u{79}\u{323}\u{323}"],["\u{1e93}\u{323}","\u{7a}\u{323}\u{323}","\u{1e93}\u{323}","\u{7a}\u{323}\u{323}"]],
[["\u{1ea0}\u{327}","\u{41}\u{327}\u{323}","\u{1ea0}\u{327}","\u{41}\u{327}\u{323}"],["\u{1e04}\u{327}","\u{42}\u{327}\u{323}","\u{1e04}\u{327}","\u{42}\u{327}\u{323}"],["\u{c7}\u{323}","\u{43}\u{327}\u{323}","\u{c7}\u{323}","\u{43}\u{327}\u{323}"],["\u{1e10}\u{323}","\u{44}\u{327}\u{323}","\u{1e10}\u{323}","\u{44}\u{327}\u{323}"],["\u{228}\u{323}","\u{45}\u{327}\u{323}","\u{228}\u{323}","\u{45}\u{327}\u{323}"],["\u{46}\u{327}\u{323}","\u{46}\u{327}\u{323}","\u{46}\u{327}\u{323}","\u{46}\u{327}\u{323}"],["\u{122}\u{323}","\u{47}\u{327}\u{323}","\u{122}\u{323}","\u{47}\u{327}\u{323}"],["\u{1e28}\u{323}","\u{48}\u{327}\u{323}","\u{1e28}\u{323}","\u{48}\u{327}\u{323}"],["\u{1eca}\u{327}","\u{49}\u{327}\u{323}","\u{1eca}\u{327}","\u{49}\u{327}\u{323}"],["\u{4a}\u{327}\u{323}","\u{4a}\u{327}\u{323}","\u{4a}\u{327}\u{323}","\u{4a}\u{327}\u{323}"],["\u{136}\u{323}","\u{4b}\u{327}\u{323}","\u{136}\u{323}","\u{4b}\u{327}\u{323}"],["\u{13b}\u{323}","\u{4c}\u{327}\u{323}","\u{13b}\u{323}","\u{4c}\u{327}\u{323}"],["\u{1e42}\u{327}","\u{4d}\u{327}\u{323}","\u{1e42}\u{327}","\u{4d}\u{327}\u{323}"],["\u{145}\u{323}","\u{4e}\u{327}\u{323}","\u{145}\u{323}","\u{4e}\u{327}\u{323}"],["\u{1ecc}\u{327}","\u{4f}\u{327}\u{323}","\u{1ecc}\u{327}","\u{4f}\u{327}\u{323}"],["\u{50}\u{327}\u{323}","\u{50}\u{327}\u{323}","\u{50}\u{327}\u{323}","\u{50}\u{327}\u{323}"],["\u{51}\u{327}\u{323}","\u{51}\u{327}\u{323}","\u{51}\u{327}\u{323}","\u{51}\u{327}\u{323}"],["\u{156}\u{323}","\u{52}\u{327}\u{323}","\u{156}\u{323}","\u{52}\u{327}\u{323}"],["\u{15e}\u{323}","\u{53}\u{327}\u{323}","\u{15e}\u{323}","\u{53}\u{327}\u{323}"],["\u{162}\u{323}","\u{54}\u{327}\u{323}","\u{162}\u{323}","\u{54}\u{327}\u{323}"],["\u{1ee4}\u{327}","\u{55}\u{327}\u{323}","\u{1ee4}\u{327}","\u{55}\u{327}\u{323}"],["\u{1e7e}\u{327}","\u{56}\u{327}\u{323}","\u{1e7e}\u{327}","\u{56}\u{327}\u{323}"],["\u{1e88}\u{327}","\u{57}\u{327}\u{323}","\u{1e88}\u{327}","\u{57}\u{327}\u{323}"],["\u{58}\u{327}\u{323}","\u{58}\u{327}\u{323}","\u{58}\u{327}\u{323}","\u{58}\u{327}\u{323}"],["\u{1ef4}\u{327}","\u{59}\u{327}\u{323}","\u{1ef4}\u{327}","\u{59}\u{327}\u{323}"],["\u{1e92}\u{327}","\u{5a}\u{327}\u{323}","\u{1e92}\u{327}","\u{5a}\u{327}\u{323}"],["\u{5b}\u{327}\u{323}","\u{5b}\u{327}\u{323}","\u{5b}\u{327}\u{323}","\u{5b}\u{327}\u{323}"],["\u{5c}\u{327}\u{323}","\u{5c}\u{327}\u{323}","\u{5c}\u{327}\u{323}","\u{5c}\u{327}\u{323}"],["\u{5d}\u{327}\u{323}","\u{5d}\u{327}\u{323}","\u{5d}\u{327}\u{323}","\u{5d}\u{327}\u{323}"],["\u{5e}\u{327}\u{323}","\u{5e}\u{327}\u{323}","\u{5e}\u{327}\u{323}","\u{5e}\u{327}\u{323}"],["\u{5f}\u{327}\u{323}","\u{5f}\u{327}\u{323}","\u{5f}\u{327}\u{323}","\u{5f}\u{327}\u{323}"],["\u{60}\u{327}\u{323}","\u{60}\u{327}\u{323}","\u{60}\u{327}\u{323}","\u{60}\u{327}\u{323}"],["\u{1ea1}\u{327}","\u{61}\u{327}\u{323}","\u{1ea1}\u{327}","\u{61}\u{327}\u{323}"],["\u{1e05}\u{327}","\u{62}\u{327}\u{323}","\u{1e05}\u{327}","\u{62}\u{327}\u{323}"],["\u{e7}\u{323}","\u{63}\u{327}\u{323}","\u{e7}\u{323}","\u{63}\u{327}\u{323}"],["\u{1e11}\u{323}","\u{64}\u{327}\u{323}","\u{1e11}\u{323}","\u{64}\u{327}\u{323}"],["\u{229}\u{323}","\u{65}\u{327}\u{323}","\u{229}\u{323}","\u{65}\u{327}\u{323}"],["\u{66}\u{327}\u{323}","\u{66}\u{327}\u{323}","\u{66}\u{327}\u{323}","\u{66}\u{327}\u{323}"],["\u{123}\u{323}","\u{67}\u{327}\u{323}","\u{123}\u{323}","\u{67}\u{327}\u{323}"],["\u{1e29}\u{323}","\u{68}\u{327}\u{323}","\u{1e29}\u{323}","\u{68}\u{327}\u{323}"],["\u{1ecb}\u{327}","\u{69}\u{327}\u{323}","\u{1ecb}\u{327}","\u{69}\u{327}\u{323}"],["\u{6a}\u{327}\u{323}","\u{6a}\u{327}\u{323}","\u{6a}\u{327}\u{323}","\u{6a}\u{327}\u{323}"],["\u{137}\u{323}","\u{6b}\u{327}\u{323}","\u{137}\u{323}","\u{6b}\u{327}\u{323}"],["\u{13c}\u{323}","\u{6c}\u{327}\u{323}","\u{13c}\u{323}","\u{6c}\u{327}\u{323}"],["\u{1e43}\u{327}","\u{6d}\u{327}\u{323}","\u{1e43}\u{327}","\u{6d}\u{327}\u{323}"],["\u{146}\u{323}","\u{6e}\u{327}\u{323}","\u{146}\u{323}","\u{6e}\u{327}\u{323}"],["\u{1ecd}\u{327}","\u{6f}\u{327}\u{323}","\u{1ecd}\u{327}","\u{6f}\u{327}\u{323}"],["\u{70}\u{327}\u{323}","\u{70}\u{327}\u{323}","\u{70}\u{327}\u{323}","\u{70}\u{327}\u{323}"],["\u{71}\u{327}\u{323}","\u{71}\u{327}\u{323}","\u{71}\u{327}\u{323}","\u{71}\u{327}\u{323}"],["\u{157}\u{323}","\u{72}\u{327}\u{323}","\u{157}\u{323}","\u{72}\u{327}\u{323}"],["\u{15f}\u{323}","\u{73}\u{327}\u{323}","\u{15f}\u{323}","\u{73}\u{327}\u{323}"],["\u{163}\u{323}","\u{74}\u{327}\u{323}","\u{163}\u{323}","\u{74}\u{327}\u{323}"],["\u{1ee5}\u{327}","\u{75}\u{327}\u{323}","\u{1ee5}\u{327}","\u{75}\u{327}\u{323}"],["\u{1e7f}\u{327}","\u{76}\u{327}\u{323}","\u{1e7f}\u{327}","\u{76}\u{327}\u{323}"],["\u{1e89}\u{327}","\u{77}\u{327}\u{323}","\u{1e89}\u{327}","\u{77}\u{327}\u{323}"],["\u{78}\u{327}\u{323}","\u{78}\u{327}\u{323}","\u{78}\u{327}\u{323}","\u{78}\u{327}\u{323}"],["\u{1ef5}\u{327}","\u{79}\u{327}\u{323}","\u{1ef5}\u{327}","\u{79}\u{327}\u{323}"],["\u{1e93}\u{327}","\u{7a}\u{327}\u{323}","\u{1e93}\u{327}","\u{7a}\u{327}\u{323}"]],
[["\u{1ea0}\u{31b}","\u{41}\u{31b}\u{323}","\u{1ea0}\u{31b}","\u{41}\u{31b}\u{323}"],["\u{1e04}\u{31b}","\u{42}\u{31b}\u{323}","\u{1e04}\u{31b}","\u{42}\u{31b}\u{323}"],["\u{43}\u{31b}\u{323}","\u{43}\u{31b}\u{323}","\u{43}\u{31b}\u{323}","\u{43}\u{31b}\u{323}"],["\u{1e0c}\u{31b}","\u{44}\u{31b}\u{323}","\u{1e0c}\u{31b}","\u{44}\u{31b}\u{323}"],["\u{1eb8}\u{31b}","\u{45}\u{31b}\u{323}","\u{1eb8}\u{31b}","\u{45}\u{31b}\u{323}"],["\u{46}\u{31b}\u{323}","\u{46}\u{31b}\u{323}","\u{46}\u{31b}\u{323}","\u{46}\u{31b}\u{323}"],["\u{47}\u{31b}\u{323}","\u{47}\u{31b}\u{323}","\u{47}\u{31b}\u{323}","\u{47}\u{31b}\u{323}"],["\u{1e24}\u{31b}","\u{48}\u{31b}\u{323}","\u{1e24}\u{31b}","\u{48}\u{31b}\u{323}"],["\u{1eca}\u{31b}","\u{49}\u{31b}\u{323}","\u{1eca}\u{31b}","\u{49}\u{31b}\u{323}"],["\u{4a}\u{31b}\u{323}","\u{4a}\u{31b}\u{323}","\u{4a}\u{31b}\u{323}","\u{4a}\u{31b}\u{323}"],["\u{1e32}\u{31b}","\u{4b}\u{31b}\u{323}","\u{1e32}\u{31b}","\u{4b}\u{31b}\u{323}"],["\u{1e36}\u{31b}","\u{4c}\u{31b}\u{323}","\u{1e36}\u{31b}","\u{4c}\u{31b}\u{323}"],["\u{1e42}\u{31b}","\u{4d}\u{31b}\u{323}","\u{1e42}\u{31b}","\u{4d}\u{31b}\u{323}"],["\u{1e46}\u{31b}","\u{4e}\u{31b}\u{323}","\u{1e46}\u{31b}","\u{4e}\u{31b}\u{323}"],["\u{1ee2}","\u{4f}\u{31b}\u{323}","\u{1ee2}","\u{4f}\u{31b}\u{323}"],["\u{50}\u{31b}\u{323}","\u{50}\u{31b}\u{323}","\u{50}\u{31b}\u{323}","\u{50}\u{31b}\u{323}"],["\u{51}\u{31b}\u{323}","\u{51}\u{31b}\u{323}","\u{51}\u{31b}\u{323}","\u{51}\u{31b}\u{323}"],["\u{1e5a}\u{31b}","\u{52}\u{31b}\u{323}","\u{1e5a}\u{31b}","\u{52}\u{31b}\u{323}"],["\u{1e62}\u{31b}","\u{53}\u{31b}\u{323}","\u{1e62}\u{31b}","\u{53}\u{31b}\u{323}"],["\u{1e6c}\u{31b}","\u{54}\u{31b}\u{323}","\u{1e6c}\u{31b}","\u{54}\u{31b}\u{323}"],["\u{1ef0}","\u{55}\u{31b}\u{323}","\u{1ef0}","\u{55}\u{31b}\u{323}"],["\u{1e7e}\u{31b}","\u{56}\u{31b}\u{323}","\u{1e7e}\u{31b}","\u{56}\u{31b}\u{323}"],["\u{1e88}\u{31b}","\u{57}\u{31b}\u{323}","\u{1e88}\u{31b}","\u{57}\u{31b}\u{323}"],["\u{58}\u{31b}\u{323}","\u{58}\u{31b}\u{323}","\u{58}\u{31b}\u{323}","\u{58}\u{31b}\u{323}"],["\u{1ef4}\u{31b}","\u{59}\u{31b}\u{323}","\u{1ef4}\u{31b}","\u{59}\u{31b}\u{323}"],["\u{1e92}\u{31b}","\u{5a}\u{31b}\u{323}","\u{1e92}\u{31b}","\u{5a}\u{31b}\u{323}"],["\u{5b}\u{31b}\u{323}","\u{5b}\u{31b}\u{323}","\u{5b}\u{31b}\u{323}","\u{5b}\u{31b}\u{323}"],["\u{5c}\u{31b}\u{323}","\u{5c}\u{31b}\u{323}","\u{5c}\u{31b}\u{323}","\u{5c}\u{31b}\u{323}"],["\u{5d}\u{31b}\u{323}","\u{5d}\u{31b}\u{323}","\u{5d}\u{31b}\u{323}","\u{5d}\u{31b}\u{323}"],["\u{5e}\u{31b}\u{323}","\u{5e}\u{31b}\u{323}","\u{5e}\u{31b}\u{323}","\u{5e}\u{31b}\u{323}"],["\u{5f}\u{31b}\u{323}","\u{5f}\u{31b}\u{323}","\u{5f}\u{31b}\u{323}","\u{5f}\u{31b}\u{323}"],["\u{60}\u{31b}\u{323}","\u{60}\u{31b}\u{323}","\u{60}\u{31b}\u{323}","\u{60}\u{31b}\u{323}"],["\u{1ea1}\u{31b}","\u{61}\u{31b}\u{323}","\u{1ea1}\u{31b}","\u{61}\u{31b}\u{323}"],["\u{1e05}\u{31b}","\u{62}\u{31b}\u{323}","\u{1e05}\u{31b}","\u{62}\u{31b}\u{323}"],["\u{63}\u{31b}\u{323}","\u{63}\u{31b}\u{323}","\u{63}\u{31b}\u{323}","\u{63}\u{31b}\u{323}"],["\u{1e0d}\u{31b}","\u{64}\u{31b}\u{323}","\u{1e0d}\u{31b}","\u{64}\u{31b}\u{323}"],["\u{1eb9}\u{31b}","\u{65}\u{31b}\u{323}","\u{1eb9}\u{31b}","\u{65}\u{31b}\u{323}"],["\u{66}\u{31b}\u{323}","\u{66}\u{31b}\u{323}","\u{66}\u{31b}\u{323}","\u{66}\u{31b}\u{323}"],["\u{67}\u{31b}\u{323}","\u{67}\u{31b}\u{323}","\u{67}\u{31b}\u{323}","\u{67}\u{31b}\u{323}"],["\u{1e25}\u{31b}","\u{68}\u{31b}\u{323}","\u{1e25}\u{31b}","\u{68}\u{31b}\u{323}"],["\u{1ecb}\u{31b}","\u{69}\u{31b}\u{323}","\u{1ecb}\u{31b}","\u{69}\u{31b}\u{323}"],["\u{6a}\u{31b}\u{323}","\u{6a}\u{31b}\u{323}","\u{6a}\u{31b}\u{323}","\u{6a}\u{31b}\u{323}"],["\u{1e33}\u{31b}","\u{6b}\u{31b}\u{323}","\u{1e33}\u{31b}","\u{6b}\u{31b}\u{323}"],["\u{1e37}\u{31b}","\u{6c}\u{31b}\u{323}","\u{1e37}\u{31b}","\u{6c}\u{31b}\u{323}"],["\u{1e43}\u{31b}","\u{6d}\u{31b}\u{323}","\u{1e43}\u{31b}","\u{6d}\u{31b}\u{323}"],["\u{1e47}\u{31b}","\u{6e}\u{31b}\u{323}","\u{1e47}\u{31b}","\u{6e}\u{31b}\u{323}"],["\u{1ee3}","\u{6f}\u{31b}\u{323}","\u{1ee3}","\u{6f}\u{31b}\u{323}"],["\u{70}\u{31b}\u{323}","\u{70}\u{31b}\u{323}","\u{70}\u{31b}\u{323}","\u{70}\u{31b}\u{323}"],["\u{71}\u{31b}\u{323}","\u{71}\u{31b}\u{323}","\u{71}\u{31b}\u{323}","\u{71}\u{31b}\u{323}"],["\u{1e5b}\u{31b}","\u{72}\u{31b}\u{323}","\u{1e5b}\u{31b}","\u{72}\u{31b}\u{323}"],["\u{1e63}\u{31b}","\u{73}\u{31b}\u{323}","\u{1e63}\u{31b}","\u{73}\u{31b}\u{323}"],["\u{1e6d}\u{31b}","\u{74}\u{31b}\u{323}","\u{1e6d}\u{31b}","\u{74}\u{31b}\u{323}"],["\u{1ef1}","\u{75}\u{31b}\u{323}","\u{1ef1}","\u{75}\u{31b}\u{323}"],["\u{1e7f}\u{31b}","\u{76}\u{31b}\u{323}","\u{1e7f}\u{31b}","\u{76}\u{31b}\u{323}"],["\u{1e89}\u{31b}","\u{77}\u{31b}\u{323}","\u{1e89}\u{31b}","\u{77}\u{31b}\u{323}"],["\u{78}\u{31b}\u{323}","\u{78}\u{31b}\u{323}","\u{78}\u{31b}\u{323}","\u{78}\u{31b}\u{323}"],["\u{1ef5}\u{31b}","\u{79}\u{31b}\u{323}","\u{1ef5}\u{31b}","\u{79}\u{31b}\u{323}"],["\u{1e93}\u{31b}","\u{7a}\u{31b}\u{323}","\u{1e93}\u{31b}","\u{7a}\u{31b}\u{323}"]],
[["\u{1ea0}\u{345}","\u{41}\u{323}\u{345}","\u{1ea0}\u{345}","\u{41}\u{323}\u{345}"],["\u{1e04}\u{345}","\u{42}\u{323}\u{345}","\u{1e04}\u{345}","\u{42}\u{323}\u{345}"],["\u{43}\u{323}\u{345}","\u{43}\u{323}\u{345}","\u{43}\u{323}\u{345}","\u{43}\u{323}\u{345}"],["\u{1e0c}\u{345}","\u{44}\u{323}\u{345}","\u{1e0c}\u{345}","\u{44}\u{323}\u{345}"],["\u{1eb8}\u{345}","\u{45}\u{323}\u{345}","\u{1eb8}\u{345}","\u{45}\u{323}\u{345}"],["\u{46}\u{323}\u{345}","\u{46}\u{323}\u{345}","\u{46}\u{323}\u{345}","\u{46}\u{323}\u{345}"],["\u{47}\u{323}\u{345}","\u{47}\u{323}\u{345}","\u{47}\u{323}\u{345}","\u{47}\u{323}\u{345}"],["\u{1e24}\u{345}","\u{48}\u{323}\u{345}","\u{1e24}\u{345}","\u{48}\u{323}\u{345}"],["\u{1eca}\u{345}","\u{49}\u{323}\u{345}","\u{1eca}\u{345}","\u{49}\u{323}\u{345}"],["\u{4a}\u{323}\u{345}","\u{4a}\u{323}\u{345}","\u{4a}\u{323}\u{345}","\u{4a}\u{323}\u{345}"],["\u{1e32}\u{345}","\u{4b}\u{323}\u{345}","\u{1e32}\u{345}","\u{4b}\u{323}\u{345}"],["\u{1e36}\u{345}","\u{4c}\u{323}\u{345}","\u{1e36}\u{345}","\u{4c}\u{323}\u{345}"],["\u{1e42}\u{345}","\u{4d}\u{323}\u{345}","\u{1e42}\u{345}","\u{4d}\u{323}\u{345}"],["\u{1e46}\u{345}","\u{4e}\u{323}\u{345}","\u{1e46}\u{345}","\u{4e}\u{323}\u{345}"],["\u{1ecc}\u{345}","\u{4f}\u{323}\u{345}","\u{1ecc}\u{345}","\u{4f}\u{323}\u{345}"],["\u{50}\u{323}\u{345}","\u{50}\u{323}\u{345}","\u{50}\u{323}\u{345}","\u{50}\u{323}\u{345}"],["\u{51}\u{323}\u{345}","\u{51}\u{323}\u{345}","\u{51}\u{323}\u{345}","\u{51}\u{323}\u{345}"],["\u{1e5a}\u{345}","\u{52}\u{323}\u{345}","\u{1e5a}\u{345}","\u{52}\u{323}\u{345}"],["\u{1e62}\u{345}","\u{53}\u{323}\u{345}","\u{1e62}\u{345}","\u{53}\u{323}\u{345}"],["\u{1e6c}\u{345}","\u{54}\u{323}\u{345}","\u{1e6c}\u{345}","\u{54}\u{323}\u{345}"],["\u{1ee4}\u{345}","\u{55}\u{323}\u{345}","\u{1ee4}\u{345}","\u{55}\u{323}\u{345}"],["\u{1e7e}\u{345}","\u{56}\u{323}\u{345}","\u{1e7e}\u{345}","\u{56}\u{323}\u{345}"],["\u{1e88}\u{345}","\u{57}\u{323}\u{345}","\u{1e88}\u{345}","\u{57}\u{323}\u{345}"],["\u{58}\u{323}\u{345}","\u{58}\u{323}\u{345}","\u{58}\u{323}\u{345}","\u{58}\u{323}\u{345}"],["\u{1ef4}\u{345}","\u{59}\u{323}\u{345}","\u{1ef4}\u{345}","\u{59}\u{323}\u{345}"],["\u{1e92}\u{345}","\u{5a}\u{323}\u{345}","\u{1e92}\u{345}","\u{5a}\u{323}\u{345}"],["\u{5b}\u{323}\u{345}","\u{5b}\u{323}\u{345}","\u{5b}\u{323}\u{345}","\u{5b}\u{323}\u{345}"],["\u{5c}\u{323}\u{345}","\u{5c}\u{323}\u{345}","\u{5c}\u{323}\u{345}","\u{5c}\u{323}\u{345}"],["\u{5d}\u{323}\u{345}","\u{5d}\u{323}\u{345}","\u{5d}\u{323}\u{345}","\u{5d}\u{323}\u{345}"],["\u{5e}\u{323}\u{345}","\u{5e}\u{323}\u{345}","\u{5e}\u{323}\u{345}","\u{5e}\u{323}\u{345}"],["\u{5f}\u{323}\u{345}","\u{5f}\u{323}\u{345}","\u{5f}\u{323}\u{345}","\u{5f}\u{323}\u{345}"],["\u{60}\u{323}\u{345}","\u{60}\u{323}\u{345}","\u{60}\u{323}\u{345}","\u{60}\u{323}\u{345}"],["\u{1ea1}\u{345}","\u{61}\u{323}\u{345}","\u{1ea1}\u{345}","\u{61}\u{323}\u{345}"],["\u{1e05}\u{345}","\u{62}\u{323}\u{345}","\u{1e05}\u{345}","\u{62}\u{323}\u{345}"],["\u{63}\u{323}\u{345}","\u{63}\u{323}\u{345}","\u{63}\u{323}\u{345}","\u{63}\u{323}\u{345}"],["\u{1e0d}\u{345}","\u{64}\u{323}\u{345}","\u{1e0d}\u{345}","\u{64}\u{323}\u{345}"],["\u{1eb9}\u{345}","\u{65}\u{323}\u{345}","\u{1eb9}\u{345}","\u{65}\u{323}\u{345}"],["\u{66}\u{323}\u{345}","\u{66}\u{323}\u{345}","\u{66}\u{323}\u{345}","\u{66}\u{323}\u{345}"],["\u{67}\u{323}\u{345}","\u{67}\u{323}\u{345}","\u{67}\u{323}\u{345}","\u{67}\u{323}\u{345}"],["\u{1e25}\u{345}","\u{68}\u{323}\u{345}","\u{1e25}\u{345}","\u{68}\u{323}\u{345}"],["\u{1ecb}\u{345}","\u{69}\u{323}\u{345}","\u{1ecb}\u{345}","\u{69}\u{323}\u{345}"],["\u{6a}\u{323}\u{345}","\u{6a}\u{323}\u{345}","\u{6a}\u{323}\u{345}","\u{6a}\u{323}\u{345}"],["\u{1e33}\u{345}","\u{6b}\u{323}\u{345}","\u{1e33}\u{345}","\u{6b}\u{323}\u{345}"],["\u{1e37}\u{345}","\u{6c}\u{323}\u{345}","\u{1e37}\u{345}","\u{6c}\u{323}\u{345}"],["\u{1e43}\u{345}","\u{6d}\u{323}\u{345}","\u{1e43}\u{345}","\u{6d}\u{323}\u{345}"],["\u{1e47}\u{345}","\u{6e}\u{323}\u{345}","\u{1e47}\u{345}","\u{6e}\u{323}\u{345}"],["\u{1ecd}\u{345}","\u{6f}\u{323}\u{345}","\u{1ecd}\u{345}","\u{6f}\u{323}\u{345}"],["\u{70}\u{323}\u{345}","\u{70}\u{323}\u{345}","\u{70}\u{323}\u{345}","\u{70}\u{323}\u{345}"],["\u{71}\u{323}\u{345}","\u{71}\u{323}\u{345}","\u{71}\u{323}\u{345}","\u{71}\u{323}\u{345}"],["\u{1e5b}\u{345}","\u{72}\u{323}\u{345}","\u{1e5b}\u{345}","\u{72}\u{323}\u{345}"],["\u{1e63}\u{345}","\u{73}\u{323}\u{345}","\u{1e63}\u{345}","\u{73}\u{323}\u{345}"],["\u{1e6d}\u{345}","\u{74}\u{323}\u{345}","\u{1e6d}\u{345}","\u{74}\u{323}\u{345}"],["\u{1ee5}\u{345}","\u{75}\u{323}\u{345}","\u{1ee5}\u{345}","\u{75}\u{323}\u{345}"],["\u{1e7f}\u{345}","\u{76}\u{323}\u{345}","\u{1e7f}\u{345}","\u{76}\u{323}\u{345}"],["\u{1e89}\u{345}","\u{77}\u{323}\u{345}","\u{1e89}\u{345}","\u{77}\u{323}\u{345}"],["\u{78}\u{323}\u{345}","\u{78}\u{323}\u{345}","\u{78}\u{323}\u{345}","\u{78}\u{323}\u{345}"],["\u{1ef5}\u{345}","\u{79}\u{323}\u{345}","\u{1ef5}\u{345}","\u{79}\u{323}\u{345}"],["\u{1e93}\u{345}","\u{7a}\u{323}\u{345}","\u{1e93}\u{345}","\u{7a}\u{323}\u{345}"]],
[["\u{1ea0}\u{20d2}","\u{41}\u{20d2}\u{323}","\u{1ea0}\u{20d2}","\u{41}\u{20d2}\u{323}"],["\u{1e04}\u{20d2}","\u{42}\u{20d2}\u{323}","\u{1e04}\u{20d2}","\u{42}\u{20d2}\u{323}"],["\u{43}\u{20d2}\u{323}","\u{43}\u{20d2}\u{323}","\u{43}\u{20d2}\u{323}","\u{43}\u{20d2}\u{323}"],["\u{1e0c}\u{20d2}","\u{44}\u{20d2}\u{323}","\u{1e0c}\u{20d2}","\u{44}\u{20d2}\u{323}"],["\u{1eb8}\u{20d2}","\u{45}\u{20d2}\u{323}","\u{1eb8}\u{20d2}","\u{45}\u{20d2}\u{323}"],["\u{46}\u{20d2}\u{323}","\u{46}\u{20d2}\u{323}","\u{46}\u{20d2}\u{323}","\u{46}\u{20d2}\u{323}"],["\u{47}\u{20d2}\u{323}","\u{47}\u{20d2}\u{323}","\u{47}\u{20d2}\u{323}","\u{47}\u{20d2}\u{323}"],["\u{1e24}\u{20d2}","\u{48}\u{20d2}\u{323}","\u{1e24}\u{20d2}","\u{48}\u{20d2}\u{323}"],["\u{1eca}\u{20d2}","\u{49}\u{20d2}\u{323}","\u{1eca}\u{20d2}","\u{49}\u{20d2}\u{323}"],["\u{4a}\u{20d2}\u{323}","\u{4a}\u{20d2}\u{323}","\u{4a}\u{20d2}\u{323}","\u{4a}\u{20d2}\u{323}"],["\u{1e32}\u{20d2}","\u{4b}\u{20d2}\u{323}","\u{1e32}\u{20d2}","\u{4b}\u{20d2}\u{323}"],["\u{1e36}\u{20d2}","\u{4c}\u{20d2}\u{323}","\u{1e36}\u{20d2}","\u{4c}\u{20d2}\u{323}"],["\u{1e42}\u{20d2}","\u{4d}\u{20d2}\u{323}","\u{1e42}\u{20d2}","\u{4d}\u{20d2}\u{323}"],["\u{1e46}\u{20d2}","\u{4e}\u{20d2}\u{323}","\u{1e46}\u{20d2}","\u{4e}\u{20d2}\u{323}"],["\u{1ecc}\u{20d2}","\u{4f}\u{20d2}\u{323}","\u{1ecc}\u{20d2}","\u{4f}\u{20d2}\u{323}"],["\u{50}\u{20d2}\u{323}","\u{50}\u{20d2}\u{323}","\u{50}\u{20d2}\u{323}","\u{50}\u{20d2}\u{323}"],["\u{51}\u{20d2}\u{323}","\u{51}\u{20d2}\u{323}","\u{51}\u{20d2}\u{323}","\u{51}\u{20d2}\u{323}"],["\u{1e5a}\u{20d2}","\u{52}\u{20d2}\u{323}","\u{1e5a}\u{20d2}","\u{52}\u{20d2}\u{323}"],["\u{1e62}\u{20d2}","\u{53}\u{20d2}\u{323}","\u{1e62}\u{20d2}","\u{53}\u{20d2}\u{323}"],["\u{1e6c}\u{20d2}","\u{54}\u{20d2}\u{323}","\u{1e6c}\u{20d2}","\u{54}\u{20d2}\u{323}"],["\u{1ee4}\u{20d2}","\u{55}\u{20d2}\u{323}","\u{1ee4}\u{20d2}","\u{55}\u{20d2}\u{323}"],["\u{1e7e}\u{20d2}","\u{56}\u{20d2}\u{323}","\u{1e7e}\u{20d2}","\u{56}\u{20d2}\u{323}"],["\u{1e88}\u{20d2}","\u{57}\u{20d2}\u{323}","\u{1e88}\u{20d2}","\u{57}\u{20d2}\u{323}"],["\u{58}\u{20d2}\u{323}","\u{58}\u{20d2}\u{323}","\u{58}\u{20d2}\u{323}","\u{58}\u{20d2}\u{323}"],["\u{1ef4}\u{20d2}","\u{59}\u{20d2}\u{323}","\u{1ef4}\u{20d2}","\u{59}\u{20d2}\u{323}"],["\u{1e92}\u{20d2}","\u{5a}\u{20d2}\u{323}","\u{1e92}\u{20d2}","\u{5a}\u{20d2}\u{323}"],["\u{5b}\u{20d2}\u{323}","\u{5b}\u{20d2}\u{323}","\u{5b}\u{20d2}\u{323}","\u{5b}\u{20d2}\u{323}"],["\u{5c}\u{20d2}\u{323}","\u{5c}\u{20d2}\u{323}","\u{5c}\u{20d2}\u{323}","\u{5c}\u{20d2}\u{323}"],["\u{5d}\u{20d2}\u{323}","\u{5d}\u{20d2}\u{323}","\u{5d}\u{20d2}\u{323}","\u{5d}\u{20d2}\u{323}"],["\u{5e}\u{20d2}\u{323}","\u{5e}\u{20d2}\u{323}","\u{5e}\u{20d2}\u{323}","\u{5e}\u{20d2}\u{323}"],["\u{5f}\u{20d2}\u{323}","\u{5f}\u{20d2}\u{323}","\u{5f}\u{20d2}\u{323}","\u{5f}\u{20d2}\u{323}"],["\u{60}\u{20d2}\u{323}","\u{60}\u{20d2}\u{323}","\u{60}\u{20d2}\u{323}","\u{60}\u{20d2}\u{323}"],["\u{1ea1}\u{20d2}","\u{61}\u{20d2}\u{323}","\u{1ea1}\u{20d2}","\u{61}\u{20d2}\u{323}"],["\u{1e05}\u{20d2}","\u{62}\u{20d2}\u{323}","\u{1e05}\u{20d2}","\u{62}\u{20d2}\u{323}"],["\u{63}\u{20d2}\u{323}","\u{63}\u{20d2}\u{323}","\u{63}\u{20d2}\u{323}","\u{63}\u{20d2}\u{323}"],["\u{1e0d}\u{20d2}","\u{64}\u{20d2}\u{323}","\u{1e0d}\u{20d2}","\u{64}\u{20d2}\u{323}"],["\u{1eb9}\u{20d2}","\u{65}\u{20d2}\u{323}","\u{1eb9}\u{20d2}","\u{65}\u{20d2}\u{323}"],["\u{66}\u{20d2}\u{323}","\u{66}\u{20d2}\u{323}","\u{66}\u{20d2}\u{323}","\u{66}\u{20d2}\u{323}"],["\u{67}\u{20d2}\u{323}","\u{67}\u{20d2}\u{323}","\u{67}\u{20d2}\u{323}","\u{67}\u{20d2}\u{323}"],["\u{1e25}\u{20d2}","\u{68}\u{20d2}\u{323}","\u{1e25}\u{20d2}","\u{68}\u{20d2}\u{323}"],["\u{1ecb}\u{20d2}","\u{69}\u{20d2}\u{323}","\u{1ecb}\u{20d2}","\u{69}\u{20d2}\u{323}"],["\u{6a}\u{20d2}\u{323}","\u{6a}\u{20d2}\u{323}","\u{6a}\u{20d2}\u{323}","\u{6a}\u{20d2}\u{323}"],["\u{1e33}\u{20d2}","\u{6b}\u{20d2}\u{323}","\u{1e33}\u{20d2}","\u{6b}\u{20d2}\u{323}"],["\u{1e37}\u{20d2}","\u{6c}\u{20d2}\u{323}","\u{1e37}\u{20d2}","\u{6c}\u{20d2}\u{323}"],["\u{1e43}\u{20d2}","\u{6d}\u{20d2}\u{323}","\u{1e43}\u{20d2}","\u{6d}\u{20d2}\u{323}"],["\u{1e47}\u{20d2}","\u{6e}\u{20d2}\u{323}","\u{1e47}\u{20d2}","\u{6e}\u{20d2}\u{323}"],["\u{1ecd}\u{20d2}","\u{6f}\u{20d2}\u{323}","\u{1ecd}\u{20d2}","\u{6f}\u{20d2}\u{323}"],["\u{70}\u{20d2}\u{323}","\u{70}\u{20d2}\u{323}","\u{70}\u{20d2}\u{323}","\u{70}\u{20d2}\u{323}"],["\u{71}\u{20d2}\u{323}","\u{71}\u{20d2}\u{323}","\u{71}\u{20d2}\u{323}","\u{71}\u{20d2}\u{323}"],["\u{1e5b}\u{20d2}","\u{72}\u{20d2}\u{323}","\u{1e5b}\u{20d2}","\u{72}\u{20d2}\u{323}"],["\u{1e63}\u{20d2}","\u{73}\u{20d2}\u{323}","\u{1e63}\u{20d2}","\u{73}\u{20d2}\u{323}"],["\u{1e6d}\u{20d2}","\u{74}\u{20d2}\u{323}","\u{1e6d}\u{20d2}","\u{74}\u{20d2}\u{323}"],["\u{1ee5}\u{20d2}","\u{75}\u{20d2}\u{323}","\u{1ee5}\u{20d2}","\u{75}\u{20d2}\u{323}"],["\u{1e7f}\u{20d2}","\u{76}\u{20d2}\u{323}","\u{1e7f}\u{20d2}","\u{76}\u{20d2}\u{323}"],["\u{1e89}\u{20d2}","\u{77}\u{20d2}\u{323}","\u{1e89}\u{20d2}","\u{77}\u{20d2}\u{323}"],["\u{78}\u{20d2}\u{323}","\u{78}\u{20d2}\u{323}","\u{78}\u{20d2}\u{323}","\u{78}\u{20d2}\u{323}"],["\u{1ef5}\u{20d2}","\u{79}\u{20d2}\u{323}","\u{1ef5}\u{20d2}","\u{79}\u{20d2}\u{323}"],["\u{1e93}\u{20d2}","\u{7a}\u{20d2}\u{323}","\u{1e93}\u{20d2}","\u{7a}\u{20d2}\u{323}"]],
[["\u{c0}\u{327}","\u{41}\u{327}\u{300}","\u{c0}\u{327}","\u{41}\u{327}\u{300}"],["\u{42}\u{327}\u{300}","\u{42}\u{327}\u{300}","\u{42}\u{327}\u{300}","\u{42}\u{327}\u{300}"],["\u{c7}\u{300}","\u{43}\u{327}\u{300}","\u{c7}\u{300}","\u{43}\u{327}\u{300}"],["\u{1e10}\u{300}","\u{44}\u{327}\u{300}","\u{1e10}\u{300}","\u{44}\u{327}\u{300}"],["\u{228}\u{300}","\u{45}\u{327}\u{300}","\u{228}\u{300}","\u{45}\u{327}\u{300}"],["\u{46}\u{327}\u{300}","\u{46}\u{327}\u{300}","\u{46}\u{327}\u{300}","\u{46}\u{327}\u{300}"],["\u{122}\u{300}","\u{47}\u{327}\u{300}","\u{122}\u{300}","\u{47}\u{327}\u{300}"],["\u{1e28}\u{300}","\u{48}\u{327}\u{300}","\u{1e28}\u{300}","\u{48}\u{327}\u{300}"],["\u{cc}\u{327}","\u{49}\u{327}\u{300}","\u{cc}\u{327}","\u{49}\u{327}\u{300}"],["\u{4a}\u{327}\u{300}","\u{4a}\u{327}\u{300}","\u{4a}\u{327}\u{300}","\u{4a}\u{327}\u{300}"],["\u{136}\u{300}","\u{4b}\u{327}\u{300}","\u{136}\u{300}","\u{4b}\u{327}\u{300}"],["\u{13b}\u{300}","\u{4c}\u{327}\u{300}","\u{13b}\u{300}","\u{4c}\u{327}\u{300}"],["\u{4d}\u{327}\u{300}","\u{4d}\u{327}\u{300}","\u{4d}\u{327}\u{300}","\u{4d}\u{327}\u{300}"],["\u{145}\u{300}","\u{4e}\u{327}\u{300}","\u{145}\u{300}","\u{4e}\u{327}\u{300}"],["\u{d2}\u{327}","\u{4f}\u{327}\u{300}","\u{d2}\u{327}","\u{4f}\u{327}\u{300}"],["\u{50}\u{327}\u{300}","\u{50}\u{327}\u{300}","\u{50}\u{327}\u{300}","\u{50}\u{327}\u{300}"],["\u{51}\u{327}\u{300}","\u{51}\u{327}\u{300}","\u{51}\u{327}\u{300}","\u{51}\u{327}\u{300}"],["\u{156}\u{300}","\u{52}\u{327}\u{300}","\u{156}\u{300}","\u{52}\u{327}\u{300}"],["\u{15e}\u{300}","\u{53}\u{327}\u{300}","\u{15e}\u{300}","\u{53}\u{327}\u{300}"],["\u{162}\u{300}","\u{54}\u{327}\u{300}","\u{162}\u{300}","\u{54}\u{327}\u{300}"],["\u{d9}\u{327}","\u{55}\u{327}\u{300}","\u{d9}\u{327}","\u{55}\u{327}\u{300}"],["\u{56}\u{327}\u{300}","\u{56}\u{327}\u{300}","\u{56}\u{327}\u{300}","\u{56}\u{327}\u{300}"],["\u{1e80}\u{327}","\u{57}\u{327}\u{300}","\u{1e80}\u{327}","\u{57}\u{327}\u{300}"],["\u{58}\u{327}\u{300}","\u{58}\u{327}\u{300}","\u{58}\u{327}\u{300}","\u{58}\u{327}\u{300}"],["\u{1ef2}\u{327}","\u{59}\u{327}\u{300}","\u{1ef2}\u{327}","\u{59}\u{327}\u{300}"],["\u{5a}\u{327}\u{300}","\u{5a}\u{327}\u{300}","\u{5a}\u{327}\u{300}","\u{5a}\u{327}\u{300}"],["\u{5b}\u{327}\u{300}","\u{5b}\u{327}\u{300}","\u{5b}\u{327}\u{300}","\u{5b}\u{327}\u{300}"],["\u{5c}\u{327}\u{300}","\u{5c}\u{327}\u{300}","\u{5c}\u{327}\u{300}","\u{5c}\u{327}\u{300}"],["\u{5d}\u{327}\u{300}","\u{5d}\u{327}\u{300}","\u{5d}\u{327}\u{300}","\u{5d}\u{327}\u{300}"],["\u{5e}\u{327}\u{300}","\u{5e}\u{327}\u{300}","\u{5e}\u{327}\u{300}","\u{5e}\u{327}\u{300}"],["\u{5f}\u{327}\u{300}","\u{5f}\u{327}\u{300}","\u{5f}\u{327}\u{300}","\u{5f}\u{327}\u{300}"],["\u{60}\u{327}\u{300}","\u{60}\u{327}\u{300}","\u{60}\u{327}\u{300}","\u{60}\u{327}\u{300}"],["\u{e0}\u{327}","\u{61}\u{327}\u{300}","\u{e0}\u{327}","\u{61}\u{327}\u{300}"],["\u{62}\u{327}\u{300}","\u{62}\u{327}\u{300}","\u{62}\u{327}\u{300}","\u{62}\u{327}\u{300}"],["\u{e7}\u{300}","\u{63}\u{327}\u{300}","\u{e7}\u{300}","\u{63}\u{327}\u{300}"],["\u{1e11}\u{300}","\u{64}\u{327}\u{300}","\u{1e11}\u{300}","\u{64}\u{327}\u{300}"],["\u{229}\u{300}","\u{65}\u{327}\u{300}","\u{229}\u{300}","\u{65}\u{327}\u{300}"],["\u{66}\u{327}\u{300}","\u{66}\u{327}\u{300}","\u{66}\u{327}\u{300}","\u{66}\u{327}\u{300}"],["\u{123}\u{300}","\u{67}\u{327}\u{300}","\u{123}\u{300}","\u{67}\u{327}\u{300}"],["\u{1e29}\u{300}","\u{68}\u{327}\u{300}","\u{1e29}\u{300}","\u{68}\u{327}\u{300}"],["\u{ec}\u{327}","\u{69}\u{327}\u{300}","\u{ec}\u{327}","\u{69}\u{327}\u{300}"],["\u{6a}\u{327}\u{300}","\u{6a}\u{327}\u{300}","\u{6a}\u{327}\u{300}","\u{6a}\u{327}\u{300}"],["\u{137}\u{300}","\u{6b}\u{327}\u{300}","\u{137}\u{300}","\u{6b}\u{327}\u{300}"],["\u{13c}\u{300}","\u{6c}\u{327}\u{300}","\u{13c}\u{300}","\u{6c}\u{327}\u{300}"],["\u{6d}\u{327}\u{300}","\u{6d}\u{327}\u{300}","\u{6d}\u{327}\u{300}","\u{6d}\u{327}\u{300}"],["\u{146}\u{300}","\u{6e}\u{327}\u{300}","\u{146}\u{300}","\u{6e}\u{327}\u{300}"],["\u{f2}\u{327}","\u{6f}\u{327}\u{300}","\u{f2}\u{327}","\u{6f}\u{327}\u{300}"],["\u{70}\u{327}\u{300}","\u{70}\u{327}\u{300}","\u{70}\u{327}\u{300}","\u{70}\u{327}\u{300}"],["\u{71}\u{327}\u{300}","\u{71}\u{327}\u{300}","\u{71}\u{327}\u{300}","\u{71}\u{327}\u{300}"],["\u{157}\u{300}","\u{72}\u{327}\u{300}","\u{157}\u{300}","\u{72}\u{327}\u{300}"],["\u{15f}\u{300}","\u{73}\u{327}\u{300}","\u{15f}\u{300}","\u{73}\u{327}\u{300}"],["\u{163}\u{300}","\u{74}\u{327}\u{300}","\u{163}\u{300}","\u{74}\u{327}\u{300}"],["\u{f9}\u{327}","\u{75}\u{327}\u{300}","\u{f9}\u{327}","\u{75}\u{327}\u{300}"],["\u{76}\u{327}\u{300}","\u{76}\u{327}\u{300}","\u{76}\u{327}\u{300}","\u{76}\u{327}\u{300}"],["\u{1e81}\u{327}","\u{77}\u{327}\u{300}","\u{1e81}\u{327}","\u{77}\u{327}\u{300}"],["\u{78}\u{327}\u{300}","\u{78}\u{327}\u{300}","\u{78}\u{327}\u{300}","\u{78}\u{327}\u{300}"],["\u{1ef3}\u{327}","\u{79}\u{327}\u{300}","\u{1ef3}\u{327}","\u{79}\u{327}\u{300}"],["\u{7a}\u{327}\u{300}","\u{7a}\u{327}\u{300}","\u{7a}\u{327}\u{300}","\u{7a}\u{327}\u{300}"]],
[["\u{c1}\u{327}","\u{41}\u{327}\u{301}","\u{c1}\u{327}","\u{41}\u{327}\u{301}"],["\u{42}\u{327}\u{301}","\u{42}\u{327}\u{301}","\u{42}\u{327}\u{301}","\u{42}\u{327}\u{301}"],["\u{1e08}","\u{43}\u{327}\u{301}","\u{1e08}","\u{43}\u{327}\u{301}"],["\u{1e10}\u{301}","\u{44}\u{327}\u{301}","\u{1e10}\u{301}","\u{44}\u{327}\u{301}"],["\u{228}\u{301}","\u{45}\u{327}\u{301}","\u{228}\u{301}","\u{45}\u{327}\u{301}"],["\u{46}\u{327}\u{301}","\u{46}\u{327}\u{301}","\u{46}\u{327}\u{301}","\u{46}\u{327}\u{301}"],["\u{122}\u{301}","\u{47}\u{327}\u{301}","\u{122}\u{301}","\u{47}\u{327}\u{301}"],["\u{1e28}\u{301}","\u{48}\u{327}\u{301}","\u{1e28}\u{301}","\u{48}\u{327}\u{301}"],["\u{cd}\u{327}","\u{49}\u{327}\u{301}","\u{cd}\u{327}","\u{49}\u{327}\u{301}"],["\u{4a}\u{327}\u{301}","\u{4a}\u{327}\u{301}","\u{4a}\u{327}\u{301}","\u{4a}\u{327}\u{301}"],["\u{136}\u{301}","\u{4b}\u{327}\u{301}","\u{136}\u{301}","\u{4b}\u{327}\u{301}"],["\u{13b}\u{301}","\u{4c}\u{327}\u{301}","\u{13b}\u{301}","\u{4c}\u{327}\u{301}"],["\u{1e3e}\u{327}","\u{4d}\u{327}\u{301}","\u{1e3e}\u{327}","\u{4d}\u{327}\u{301}"],["\u{145}\u{301}","\u{4e}\u{327}\u{301}","\u{145}\u{301}","\u{4e}\u{327}\u{301}"],["\u{d3}\u{327}","\u{4f}\u{327}\u{301}","\u{d3}\u{327}","\u{4f}\u{327}\u{301}"],["\u{1e54}\u{327}","\u{50}\u{327}\u{301}","\u{1e54}\u{327}","\u{50}\u{327}\u{301}"],["\u{51}\u{327}\u{301}","\u{51}\u{327}\u{301}","\u{51}\u{327}\u{301}","\u{51}\u{327}\u{301}"],["\u{156}\u{301}","\u{52}\u{327}\u{301}","\u{156}\u{301}","\u{52}\u{327}\u{301}"],["\u{15e}\u{301}","\u{53}\u{327}\u{301}","\u{15e}\u{301}","\u{53}\u{327}\u{301}"],["\u{162}\u{301}","\u{54}\u{327}\u{301}","\u{162}\u{301}","\u{54}\u{327}\u{301}"],["\u{da}\u{327}","\u{55}\u{327}\u{301}","\u{da}\u{327}","\u{55}\u{327}\u{301}"],["\u{56}\u{327}\u{301}","\u{56}\u{327}\u{301}","\u{56}\u{327}\u{301}","\u{56}\u{327}\u{301}"],["\u{1e82}\u{327}","\u{57}\u{327}\u{301}","\u{1e82}\u{327}","\u{57}\u{327}\u{301}"],["\u{58}\u{327}\u{301}","\u{58}\u{327}\u{301}","\u{58}\u{327}\u{301}","\u{58}\u{327}\u{301}"],["\u{dd}\u{327}","\u{59}\u{327}\u{301}","\u{dd}\u{327}","\u{59}\u{327}\u{301}"],["\u{179}\u{327}","\u{5a}\u{327}\u{301}","\u{179}\u{327}","\u{5a}\u{327}\u{301}"],["\u{5b}\u{327}\u{301}","\u{5b}\u{327}\u{301}","\u{5b}\u{327}\u{301}","\u{5b}\u{327}\u{301}"],["\u{5c}\u{327}\u{301}","\u{5c}\u{327}\u{301}","\u{5c}\u{327}\u{301}","\u{5c}\u{327}\u{301}"],["\u{5d}\u{327}\u{301}","\u{5d}\u{327}\u{301}","\u{5d}\u{327}\u{301}","\u{5d}\u{327}\u{301}"],["\u{5e}\u{327}\u{301}","\u{5e}\u{327}\u{301}","\u{5e}\u{327}\u{301}","\u{5e}\u{327}\u{301}"],["\u{5f}\u{327}\u{301}","\u{5f}\u{327}\u{301}","\u{5f}\u{327}\u{301}","\u{5f}\u{327}\u{301}"],["\u{60}\u{327}\u{301}","\u{60}\u{327}\u{301}","\u{60}\u{327}\u{301}","\u{60}\u{327}\u{301}"],["\u{e1}\u{327}","\u{61}\u{327}\u{301}","\u{e1}\u{327}","\u{61}\u{327}\u{301}"],["\u{62}\u{327}\u{301}","\u{62}\u{327}\u{301}","\u{62}\u{327}\u{301}","\u{62}\u{327}\u{301}"],["\u{1e09}","\u{63}\u{327}\u{301}","\u{1e09}","\u{63}\u{327}\u{301}"],["\u{1e11}\u{301}","\u{64}\u{327}\u{301}","\u{1e11}\u{301}","\u{64}\u{327}\u{301}"],["\u{229}\u{301}","\u{65}\u{327}\u{301}","\u{229}\u{301}","\u{65}\u{327}\u{301}"],["\u{66}\u{327}\u{301}","\u{66}\u{327}\u{301}","\u{66}\u{327}\u{301}","\u{66}\u{327}\u{301}"],["\u{123}\u{301}","\u{67}\u{327}\u{301}","\u{123}\u{301}","\u{67}\u{327}\u{301}"],["\u{1e29}\u{301}","\u{68}\u{327}\u{301}","\u{1e29}\u{301}","\u{68}\u{327}\u{301}"],["\u{ed}\u{327}","\u{69}\u{327}\u{301}","\u{ed}\u{327}","\u{69}\u{327}\u{301}"],["\u{6a}\u{327}\u{301}","\u{6a}\u{327}\u{301}","\u{6a}\u{327}\u{301}","\u{6a}\u{327}\u{301}"],["\u{137}\u{301}","\u{6b}\u{327}\u{301}","\u{137}\u{301}","\u{6b}\u{327}\u{301}"],["\u{13c}\u{301}","\u{6c}\u{327}\u{301}","\u{13c}\u{301}","\u{6c}\u{327}\u{301}"],["\u{1e3f}\u{327}","\u{6d}\u{327}\u{301}","\u{1e3f}\u{327}","\u{6d}\u{327}\u{301}"],["\u{146}\u{301}","\u{6e}\u{327}\u{301}","\u{146}\u{301}","\u{6e}\u{327}\u{301}"],["\u{f3}\u{327}","\u{6f}\u{327}\u{301}","\u{f3}\u{327}","\u{6f}\u{327}\u{301}"],["\u{1e55}\u{327}","\u{70}\u{327}\u{301}","\u{1e55}\u{327}","\u{70}\u{327}\u{301}"],["\u{71}\u{327}\u{301}","\u{71}\u{327}\u{301}","\u{71}\u{327}\u{301}","\u{71}\u{327}\u{301}"],["\u{157}\u{301}","\u{72}\u{327}\u{301}","\u{157}\u{301}","\u{72}\u{327}\u{301}"],["\u{15f}\u{301}","\u{73}\u{327}\u{301}","\u{15f}\u{301}","\u{73}\u{327}\u{301}"],["\u{163}\u{301}","\u{74}\u{327}\u{301}","\u{163}\u{301}","\u{74}\u{327}\u{301}"],["\u{fa}\u{327}","\u{75}\u{327}\u{301}","\u{fa}\u{327}","\u{75}\u{327}\u{301}"],["\u{76}\u{327}\u{301}","\u{76}\u{327}\u{301}","\u{76}\u{327}\u{301}","\u{76}\u{327}\u{301}"],["\u{1e83}\u{327}","\u{77}\u{327}\u{301}","\u{1e83}\u{327}","\u{77}\u{327}\u{301}"],["\u{78}\u{327}\u{301}","\u{78}\u{327}\u{301}","\u{78}\u{327}\u{301}","\u{78}\u{327}\u{301}"],["\u{fd}\u{327}","\u{79}\u{327}\u{301}","\u{fd}\u{327}","\u{79}\u{327}\u{301}"],["\u{17a}\u{327}","\u{7a}\u{327}\u{301}","\u{17a}\u{327}","\u{7a}\u{327}\u{301}"]],
[["\u{c2}\u{327}","\u{41}\u{327}\u{302}","\u{c2}\u{327}","\u{41}\u{327}\u{302}"],["\u{42}\u{327}\u{302}","\u{42}\u{327}\u{302}","\u{42}\u{327}\u{302}","\u{42}\u{327}\u{302}"],["\u{c7}\u{302}","\u{43}\u{327}\u{302}","\u{c7}\u{302}","\u{43}\u{327}\u{302}"],["\u{1e10}\u{302}","\u{44}\u{327}\u{302}","\u{1e10}\u{302}","\u{44}\u{327}\u{302}"],["\u{228}\u{302}","\u{45}\u{327}\u{302}","\u{228}\u{302}","\u{45}\u{327}\u{302}"],["\u{46}\u{327}\u{302}","\u{46}\u{327}\u{302}","\u{46}\u{327}\u{302}","\u{46}\u{327}\u{302}"],["\u{122}\u{302}","\u{47}\u{327}\u{302}","\u{122}\u{302}","\u{47}\u{327}\u{302}"],["\u{1e28}\u{302}","\u{48}\u{327}\u{302}","\u{1e28}\u{302}","\u{48}\u{327}\u{302}"],["\u{ce}\u{327}","\u{49}\u{327}\u{302}","\u{ce}\u{327}","\u{49}\u{327}\u{302}"],["\u{134}\u{327}","\u{4a}\u{327}\u{302}","\u{134}\u{327}","\u{4a}\u{327}\u{302}"],["\u{136}\u{302}","\u{4b}\u{327}\u{302}","\u{136}\u{302}","\u{4b}\u{327}\u{302}"],["\u{13b}\u{302}","\u{4c}\u{327}\u{302}","\u{13b}\u{302}","\u{4c}\u{327}\u{302}"],["\u{4d}\u{327}\u{302}","\u{4d}\u{327}\u{302}","\u{4d}\u{327}\u{302}","\u{4d}\u{327}\u{302}"],["\u{145}\u{302}","\u{4e}\u{327}\u{302}","\u{145}\u{302}","\u{4e}\u{327}\u{302}"],["\u{d4}\u{327}","\u{4f}\u{327}\u{302}","\u{d4}\u{327}","\u{4f}\u{327}\u{302}"],["\u{50}\u{327}\u{302}","\u{50}\u{327}\u{302}","\u{50}\u{327}\u{302}","\u{50}\u{327}\u{302}"],["\u{51}\u{327}\u{302}","\u{51}\u{327}\u{302}","\u{51}\u{327}\u{302}","\u{51}\u{327}\u{302}"],["\u{156}\u{302}","\u{52}\u{327}\u{302}","\u{156}\u{302}","\u{52}\u{327}\u{302}"],["\u{15e}\u{302}","\u{53}\u{327}\u{302}","\u{15e}\u{302}","\u{53}\u{327}\u{302}"],["\u{162}\u{302}","\u{54}\u{327}\u{302}","\u{162}\u{302}","\u{54}\u{327}\u{302}"],["\u{db}\u{327}","\u{55}\u{327}\u{302}","\u{db}\u{327}","\u{55}\u{327}\u{302}"],["\u{56}\u{327}\u{302}","\u{56}\u{327}\u{302}","\u{56}\u{327}\u{302}","\u{56}\u{327}\u{302}"],["\u{174}\u{327}","\u{57}\u{327}\u{302}","\u{174}\u{327}","\u{57}\u{327}\u{302}"],["\u{58}\u{327}\u{302}","\u{58}\u{327}\u{302}","\u{58}\u{327}\u{302}","\u{58}\u{327}\u{302}"],["\u{176}\u{327}","\u{59}\u{327}\u{302}","\u{176}\u{327}","\u{59}\u{327}\u{302}"],["\u{1e90}\u{327}","\u{5a}\u{327}\u{302}","\u{1e90}\u{327}","\u{5a}\u{327}\u{302}"],["\u{5b}\u{327}\u{302}","\u{5b}\u{327}\u{302}","\u{5b}\u{327}\u{302}","\u{5b}\u{327}\u{302}"],["\u{5c}\u{327}\u{302}","\u{5c}\u{327}\u{302}","\u{5c}\u{327}\u{302}","\u{5c}\u{327}\u{302}"],["\u{5d}\u{327}\u{302}","\u{5d}\u{327}\u{302}","\u{5d}\u{327}\u{302}","\u{5d}\u{327}\u{302}"],["\u{5e}\u{327}\u{302}","\u{5e}\u{327}\u{302}","\u{5e}\u{327}\u{302}","\u{5e}\u{327}\u{302}"],["\u{5f}\u{327}\u{302}","\u{5f}\u{327}\u{302}","\u{5f}\u{327}\u{302}","\u{5f}\u{327}\u{302}"],["\u{60}\u{327}\u{302}","\u{60}\u{327}\u{302}","\u{60}\u{327}\u{302}","\u{60}\u{327}\u{302}"],["\u{e2}\u{327}","\u{61}\u{327}\u{302}","\u{e2}\u{327}","\u{61}\u{327}\u{302}"],["\u{62}\u{327}\u{302}","\u{62}\u{327}\u{302}","\u{62}\u{327}\u{302}","\u{62}\u{327}\u{302}"],["\u{e7}\u{302}","\u{63}\u{327}\u{302}","\u{e7}\u{302}","\u{63}\u{327}\u{302}"],["\u{1e11}\u{302}","\u{64}\u{327}\u{302}","\u{1e11}\u{302}","\u{64}\u{327}\u{302}"],["\u{229}\u{302}","\u{65}\u{327}\u{302}","\u{229}\u{302}","\u{65}\u{327}\u{302}"],["\u{66}\u{327}\u{302}","\u{66}\u{327}\u{302}","\u{66}\u{327}\u{302}","\u{66}\u{327}\u{302}"],["\u{123}\u{302}","\u{67}\u{327}\u{302}","\u{123}\u{302}","\u{67}\u{327}\u{302}"],["\u{1e29}\u{302}","\u{68}\u{327}\u{302}","\u{1e29}\u{302}","\u{68}\u{327}\u{302}"],["\u{ee}\u{327}","\u{69}\u{327}\u{302}","\u{ee}\u{327}","\u{69}\u{327}\u{302}"],["\u{135}\u{327}","\u{6a}\u{327}\u{302}","\u{135}\u{327}","\u{6a}\u{327}\u{302}"],["\u{137}\u{302}","\u{6b}\u{327}\u{302}","\u{137}\u{302}","\u{6b}\u{327}\u{302}"],["\u{13c}\u{302}","\u{6c}\u{327}\u{302}","\u{13c}\u{302}","\u{6c}\u{327}\u{302}"],["\u{6d}\u{327}\u{302}","\u{6d}\u{327}\u{302}","\u{6d}\u{327}\u{302}","\u{6d}\u{327}\u{302}"],["\u{146}\u{302}","\u{6e}\u{327}\u{302}","\u{146}\u{302}","\u{6e}\u{327}\u{302}"],["\u{f4}\u{327}","\u{6f}\u{327}\u{302}","\u{f4}\u{327}","\u{6f}\u{327}\u{302}"],["\u{70}\u{327}\u{302}","\u{70}\u{327}\u{302}","\u{70}\u{327}\u{302}","\u{70}\u{327}\u{302}"],["\u{71}\u{327}\u{302}","\u{71}\u{327}\u{302}","\u{71}\u{327}\u{302}","\u{71}\u{327}\u{302}"],["\u{157}\u{302}","\u{72}\u{327}\u{302}","\u{157}\u{302}","\u{72}\u{327}\u{302}"],["\u{15f}\u{302}","\u{73}\u{327}\u{302}","\u{15f}\u{302}","\u{73}\u{327}\u{302}"],["\u{163}\u{302}","\u{74}\u{327}\u{302}","\u{163}\u{302}","\u{74}\u{327}\u{302}"],["\u{fb}\u{327}","\u{75}\u{327}\u{302}","\u{fb}\u{327}","\u{75}\u{327}\u{302}"],["\u{76}\u{327}\u{302}","\u{76}\u{327}\u{302}","\u{76}\u{327}\u{302}","\u{76}\u{327}\u{302}"],["\u{175}\u{327}","\u{77}\u{327}\u{302}","\u{175}\u{327}","\u{77}\u{327}\u{302}"],["\u{78}\u{327}\u{302}","\u{78}\u{327}\u{302}","\u{78}\u{327}\u{302}","\u{78}\u{327}\u{302}"],["\u{177}\u{327}","\u{79}\u{327}\u{302}","\u{177}\u{327}","\u{79}\u{327}\u{302}"],["\u{1e91}\u{327}","\u{7a}\u{327}\u{302}","\u{1e91}\u{327}","\u{7a}\u{327}\u{302}"]],
[["\u{c3}\u{327}","\u{41}\u{327}\u{303}","\u{c3}\u{327}","\u{41}\u{327}\u{303}"],["\u{42}\u{327}\u{303}","\u{42}\u{327}\u{303}","\u{42}\u{327}\u{303}","\u{42}\u{327}\u{303}"],["\u{c7}\u{303}","\u{43}\u{327}\u{303}","\u{c7}\u{303}","\u{43}\u{327}\u{303}"],["\u{1e10}\u{303}","\u{44}\u{327}\u{303}","\u{1e10}\u{303}","\u{44}\u{327}\u{303}"],["\u{228}\u{303}","\u{45}\u{327}\u{303}","\u{228}\u{303}","\u{45}\u{327}\u{303}"],["\u{46}\u{327}\u{303}","\u{46}\u{327}\u{303}","\u{46}\u{327}\u{303}","\u{46}\u{327}\u{303}"],["\u{122}\u{303}","\u{47}\u{327}\u{303}","\u{122}\u{303}","\u{47}\u{327}\u{303}"],["\u{1e28}\u{303}","\u{48}\u{327}\u{303}","\u{1e28}\u{303}","\u{48}\u{327}\u{303}"],["\u{128}\u{327}","\u{49}\u{327}\u{303}","\u{128}\u{327}","\u{49}\u{327}\u{303}"],["\u{4a}\u{327}\u{303}","\u{4a}\u{327}\u{303}","\u{4a}\u{327}\u{303}","\u{4a}\u{327}\u{303}"],["\u{136}\u{303}","\u{4b}\u{327}\u{303}","\u{136}\u{303}","\u{4b}\u{327}\u{303}"],["\u{13b}\u{303}","\u{4c}\u{327}\u{303}","\u{13b}\u{303}","\u{4c}\u{327}\u{303}"],["\u{4d}\u{327}\u{303}","\u{4d}\u{327}\u{303}","\u{4d}\u{327}\u{303}","\u{4d}\u{327}\u{303}"],["\u{145}\u{303}","\u{4e}\u{327}\u{303}","\u{145}\u{303}","\u{4e}\u{327}\u{303}"],["\u{d5}\u{327}","\u{4f}\u{327}\u{303}","\u{d5}\u{327}","\u{4f}\u{327}\u{303}"],["\u{50}\u{327}\u{303}","\u{50}\u{327}\u{303}","\u{50}\u{327}\u{303}","\u{50}\u{327}\u{303}"],["\u{51}\u{327}\u{303}","\u{51}\u{327}\u{303}","\u{51}\u{327}\u{303}","\u{51}\u{327}\u{303}"],["\u{156}\u{303}","\u{52}\u{327}\u{303}","\u{156}\u{303}","\u{52}\u{327}\u{303}"],["\u{15e}\u{303}","\u{53}\u{327}\u{303}","\u{15e}\u{303}","\u{53}\u{327}\u{303}"],["\u{162}\u{303}","\u{54}\u{327}\u{303}","\u{162}\u{303}","\u{54}\u{327}\u{303}"],["\u{168}\u{327}","\u{55}\u{327}\u{303}","\u{168}\u{327}","\u{55}\u{327}\u{303}"],["\u{1e7c}\u{327}","\u{56}\u{327}\u{303}","\u{1e7c}\u{327}","\u{56}\u{327}\u{303}"],["\u{57}\u{327}\u{303}","\u{57}\u{327}\u{303}","\u{57}\u{327}\u{303}","\u{57}\u{327}\u{303}"],["\u{58}\u{327}\u{303}","\u{58}\u{327}\u{303}","\u{58}\u{327}\u{303}","\u{58}\u{327}\u{303}"],["\u{1ef8}\u{327}","\u{59}\u{327}\u{303}","\u{1ef8}\u{327}","\u{59}\u{327}\u{303}"],["\u{5a}\u{327}\u{303}","\u{5a}\u{327}\u{303}","\u{5a}\u{327}\u{303}","\u{5a}\u{327}\u{303}"],["\u{5b}\u{327}\u{303}","\u{5b}\u{327}\u{303}","\u{5b}\u{327}\u{303}","\u{5b}\u{327}\u{303}"],["\u{5c}\u{327}\u{303}","\u{5c}\u{327}\u{303}","\u{5c}\u{327}\u{303}","\u{5c}\u{327}\u{303}"],["\u{5d}\u{327}\u{303}","\u{5d}\u{327}\u{303}","\u{5d}\u{327}\u{303}","\u{5d}\u{327}\u{303}"],["\u{5e}\u{327}\u{303}","\u{5e}\u{327}\u{303}","\u{5e}\u{327}\u{303}","\u{5e}\u{327}\u{303}"],["\u{5f}\u{327}\u{303}","\u{5f}\u{327}\u{303}","\u{5f}\u{327}\u{303}","\u{5f}\u{327}\u{303}"],["\u{60}\u{327}\u{303}","\u{60}\u{327}\u{303}","\u{60}\u{327}\u{303}","\u{60}\u{327}\u{303}"],["\u{e3}\u{327}","\u{61}\u{327}\u{303}","\u{e3}\u{327}","\u{61}\u{327}\u{303}"],["\u{62}\u{327}\u{303}","\u{62}\u{327}\u{303}","\u{62}\u{327}\u{303}","\u{62}\u{327}\u{303}"],["\u{e7}\u{303}","\u{63}\u{327}\u{303}","\u{e7}\u{303}","\u{63}\u{327}\u{303}"],["\u{1e11}\u{303}","\u{64}\u{327}\u{303}","\u{1e11}\u{303}","\u{64}\u{327}\u{303}"],["\u{229}\u{303}","\u{65}\u{327}\u{303}","\u{229}\u{303}","\u{65}\u{327}\u{303}"],["\u{66}\u{327}\u{303}","\u{66}\u{327}\u{303}","\u{66}\u{327}\u{303}","\u{66}\u{327}\u{303}"],["\u{123}\u{303}","\u{67}\u{327}\u{303}","\u{123}\u{303}","\u{67}\u{327}\u{303}"],["\u{1e29}\u{303}","\u{68}\u{327}\u{303}","\u{1e29}\u{303}","\u{68}\u{327}\u{303}"],["\u{129}\u{327}","\u{69}\u{327}\u{303}","\u{129}\u{327}","\u{69}\u{327}\u{303}"],["\u{6a}\u{327}\u{303}","\u{6a}\u{327}\u{303}","\u{6a}\u{327}\u{303}","\u{6a}\u{327}\u{303}"],["\u{137}\u{303}","\u{6b}\u{327}\u{303}","\u{137}\u{303}","\u{6b}\u{327}\u{303}"],["\u{13c}\u{303}","\u{6c}\u{327}\u{303}","\u{13c}\u{303}","\u{6c}\u{327}\u{303}"],["\u{6d}\u{327}\u{303}","\u{6d}\u{327}\u{303}","\u{6d}\u{327}\u{303}","\u{6d}\u{327}\u{303}"],["\u{146}\u{303}","\u{6e}\u{327}\u{303}","\u{146}\u{303}","\u{6e}\u{327}\u{303}"],["\u{f5}\u{327}","\u{6f}\u{327}\u{303}","\u{f5}\u{327}","\u{6f}\u{327}\u{303}"],["\u{70}\u{327}\u{303}","\u{70}\u{327}\u{303}","\u{70}\u{327}\u{303}","\u{70}\u{327}\u{303}"],["\u{71}\u{327}\u{303}","\u{71}\u{327}\u{303}","\u{71}\u{327}\u{303}","\u{71}\u{327}\u{303}"],["\u{157}\u{303}","\u{72}\u{327}\u{303}","\u{157}\u{303}","\u{72}\u{327}\u{303}"],["\u{15f}\u{303}","\u{73}\u{327}\u{303}","\u{15f}\u{303}","\u{73}\u{327}\u{303}"],["\u{163}\u{303}","\u{74}\u{327}\u{303}","\u{163}\u{303}","\u{74}\u{327}\u{303}"],["\u{169}\u{327}","\u{75}\u{327}\u{303}","\u{169}\u{327}","\u{75}\u{327}\u{303}"],["\u{1e7d}\u{327}","\u{76}\u{327}\u{303}","\u{1e7d}\u{327}","\u{76}\u{327}\u{303}"],["\u{77}\u{327}\u{303}","\u{77}\u{327}\u{303}","\u{77}\u{327}\u{303}","\u{77}\u{327}\u{303}"],["\u{78}\u{327}\u{303}","\u{78}\u{327}\u{303}","\u{78}\u{327}\u{303}","\u{78}\u{327}\u{303}"],["\u{1ef9}\u{327}","\u{79}\u{327}\u{303}","\u{1ef9}\u{327}","\u{79}\u{327}\u{303}"],["\u{7a}\u{327}\u{303}","\u{7a}\u{327}\u{303}","\u{7a}\u{327}\u{303}","\u{7a}\u{327}\u{303}"]],
[["\u{c4}\u{327}","\u{41}\u{327}\u{308}","\u{c4}\u{327}","\u{41}\u{327}\u{308}"],["\u{42}\u{327}\u{308}","\u{42}\u{327}\u{308}","\u{42}\u{327}\u{308}","\u{42}\u{327}\u{308}"],["\u{c7}\u{308}","\u{43}\u{327}\u{308}","\u{c7}\u{308}","\u{43}\u{327}\u{308}"],["\u{1e10}\u{308}","\u{44}\u{327}\u{308}","\u{1e10}\u{308}","\u{44}\u{327}\u{308}"],["\u{228}\u{308}","\u{45}\u{327}\u{308}","\u{228}\u{308}","\u{45}\u{327}\u{308}"],["\u{46}\u{327}\u{308}","\u{46}\u{327}\u{308}","\u{46}\u{327}\u{308}","\u{46}\u{327}\u{308}"],["\u{122}\u{308}","\u{47}\u{327}\u{308}","\u{122}\u{308}","\u{47}\u{327}\u{308}"],["\u{1e28}\u{308}","\u{48}\u{327}\u{308}","\u{1e28}\u{308}","\u{48}\u{327}\u{308}"],["\u{cf}\u{327}","\u{49}\u{327}\u{308}","\u{cf}\u{327}","\u{49}\u{327}\u{308}"],["\u{4a}\u{327}\u{308}","\u{4a}\u{327}\u{308}","\u{4a}\u{327}\u{308}","\u{4a}\u{327}\u{308}"],["\u{136}\u{308}","\u{4b}\u{327}\u{308}","\u{136}\u{308}","\u{4b}\u{327}\u{308}"],["\u{13b}\u{308}","\u{4c}\u{327}\u{308}","\u{13b}\u{308}","\u{4c}\u{327}\u{308}"],["\u{4d}\u{327}\u{308}","\u{4d}\u{327}\u{308}","\u{4d}\u{327}\u{308}","\u{4d}\u{327}\u{308}"],["\u{145}\u{308}","\u{4e}\u{327}\u{308}","\u{145}\u{308}","\u{4e}\u{327}\u{308}"],["\u{d6}\u{327}","\u{4f}\u{327}\u{308}","\u{d6}\u{327}","\u{4f}\u{327}\u{308}"],["\u{50}\u{327}\u{308}","\u{50}\u{327}\u{308}","\u{50}\u{327}\u{308}","\u{50}\u{327}\u{308}"],["\u{51}\u{327}\u{308}","\u{51}\u{327}\u{308}","\u{51}\u{327}\u{308}","\u{51}\u{327}\u{308}"],["\u{156}\u{308}","\u{52}\u{327}\u{308}","\u{156}\u{308}","\u{52}\u{327}\u{308}"],["\u{15e}\u{308}","\u{53}\u{327}\u{308}","\u{15e}\u{308}","\u{53}\u{327}\u{308}"],["\u{162}\u{308}","\u{54}\u{327}\u{308}","\u{162}\u{308}","\u{54}\u{327}\u{308}"],["\u{dc}\u{327}","\u{55}\u{327}\u{308}","\u{dc}\u{327}","\u{55}\u{327}\u{308}"],["\u{56}\u{327}\u{308}","\u{56}\u{327}\u{308}","\u{56}\u{327}\u{308}","\u{56}\u{327}\u{308}"],["\u{1e84}\u{327}","\u{57}\u{327}\u{308}","\u{1e84}\u{327}","\u{57}\u{327}\u{308}"],["\u{1e8c}\u{327}","\u{58}\u{327}\u{308}","\u{1e8c}\u{327}","\u{58}\u{327}\u{308}"],["\u{178}\u{327}","\u{59}\u{327}\u{308}","\u{178}\u{327}","\u{59}\u{327}\u{308}"],["\u{5a}\u{327}\u{308}","\u{5a}\u{327}\u{308}","\u{5a}\u{327}\u{308}","\u{5a}\u{327}\u{308}"],["\u{5b}\u{327}\u{308}","\u{5b}\u{327}\u{308}","\u{5b}\u{327}\u{308}","\u{5b}\u{327}\u{308}"],["\u{5c}\u{327}\u{308}","\u{5c}\u{327}\u{308}","\u{5c}\u{327}\u{308}","\u{5c}\u{327}\u{308}"],["\u{5d}\u{327}\u{308}","\u{5d}\u{327}\u{308}","\u{5d}\u{327}\u{308}","\u{5d}\u{327}\u{308}"],["\u{5e}\u{327}\u{308}","\u{5e}\u{327}\u{308}","\u{5e}\u{327}\u{308}","\u{5e}\u{327}\u{308}"],["\u{5f}\u{327}\u{308}","\u{5f}\u{327}\u{308}","\u{5f}\u{327}\u{308}","\u{5f}\u{327}\u{308}"],["\u{60}\u{327}\u{308}","\u{60}\u{327}\u{308}","\u{60}\u{327}\u{308}","\u{60}\u{327}\u{308}"],["\u{e4}\u{327}","\u{61}\u{327}\u{308}","\u{e4}\u{327}","\u{61}\u{327}\u{308}"],["\u{62}\u{327}\u{308}","\u{62}\u{327}\u{308}","\u{62}\u{327}\u{308}","\u{62}\u{327}\u{308}"],["\u{e7}\u{308}","\u{63}\u{327}\u{308}","\u{e7}\u{308}","\u{63}\u{327}\u{308}"],["\u{1e11}\u{308}","\u{64}\u{327}\u{308}","\u{1e11}\u{308}","\u{64}\u{327}\u{308}"],["\u{229}\u{308}","\u{65}\u{327}\u{308}","\u{229}\u{308}","\u{65}\u{327}\u{308}"],["\u{66}\u{327}\u{308}","\u{66}\u{327}\u{308}","\u{66}\u{327}\u{308}","\u{66}\u{327}\u{308}"],["\u{123}\u{308}","\u{67}\u{327}\u{308}","\u{123}\u{308}","\u{67}\u{327}\u{308}"],["\u{1e29}\u{308}","\u{68}\u{327}\u{308}","\u{1e29}\u{308}","\u{68}\u{327}\u{308}"],["\u{ef}\u{327}","\u{69}\u{327}\u{308}","\u{ef}\u{327}","\u{69}\u{327}\u{308}"],["\u{6a}\u{327}\u{308}","\u{6a}\u{327}\u{308}","\u{6a}\u{327}\u{308}","\u{6a}\u{327}\u{308}"],["\u{137}\u{308}","\u{6b}\u{327}\u{308}","\u{137}\u{308}","\u{6b}\u{327}\u{308}"],["\u{13c}\u{308}","\u{6c}\u{327}\u{308}","\u{13c}\u{308}","\u{6c}\u{327}\u{308}"],["\u{6d}\u{327}\u{308}","\u{6d}\u{327}\u{308}","\u{6d}\u{327}\u{308}","\u{6d}\u{327}\u{308}"],["\u{146}\u{308}","\u{6e}\u{327}\u{308}","\u{146}\u{308}","\u{6e}\u{327}\u{308}"],["\u{f6}\u{327}","\u{6f}\u{327}\u{308}","\u{f6}\u{327}","\u{6f}\u{327}\u{308}"],["\u{70}\u{327}\u{308}","\u{70}\u{327}\u{308}","\u{70}\u{327}\u{308}","\u{70}\u{327}\u{308}"],["\u{71}\u{327}\u{308}","\u{71}\u{327}\u{308}","\u{71}\u{327}\u{308}","\u{71}\u{327}\u{308}"],["\u{157}\u{308}","\u{72}\u{327}\u{308}","\u{157}\u{308}","\u{72}\u{327}\u{308}"],["\u{15f}\u{308}","\u{73}\u{327}\u{308}","\u{15f}\u{308}","\u{73}\u{327}\u{308}"],["\u{163}\u{308}","\u{74}\u{327}\u{308}","\u{163}\u{308}","\u{74}\u{327}\u{308}"],["\u{fc}\u{327}","\u{75}\u{327}\u{308}","\u{fc}\u{327}","\u{75}\u{327}\u{308}"],["\u{76}\u{327}\u{308}","\u{76}\u{327}\u{308}","\u{76}\u{327}\u{308}","\u{76}\u{327}\u{308}"],["\u{1e85}\u{327}","\u{77}\u{327}\u{308}","\u{1e85}\u{327}","\u{77}\u{327}\u{308}"],["\u{1e8d}\u{327}","\u{78}\u{327}\u{308}","\u{1e8d}\u{327}","\u{78}\u{327}\u{308}"],["\u{ff}\u{327}","\u{79}\u{327}\u{308}","\u{ff}\u{327}","\u{79}\u{327}\u{308}"],["\u{7a}\u{327}\u{308}","\u{7a}\u{327}\u{308}","\u{7a}\u{327}\u{308}","\u{7a}\u{327}\u{308}"]],
[["\u{1ea0}\u{327}","\u{41}\u{327}\u{323}","\u{1ea0}\u{327}","\u{41}\u{327}\u{323}"],["\u{1e04}\u{327}","\u{42}\u{327}\u{323}","\u{1e04}\u{327}","\u{42}\u{327}\u{323}"],["\u{c7}\u{323}","\u{43}\u{327}\u{323}","\u{c7}\u{323}","\u{43}\u{327}\u{323}"],["\u{1e10}\u{323}","\u{44}\u{327}\u{323}","\u{1e10}\u{323}","\u{44}\u{327}\u{323}"],["\u{228}\u{323}","\u{45}\u{327}\u{323}","\u{228}\u{323}","\u{45}\u{327}\u{323}"],["\u{46}\u{327}\u{323}","\u{46}\u{327}\u{323}","\u{46}\u{327}\u{323}","\u{46}\u{327}\u{323}"],["\u{122}\u{323}","\u{47}\u{327}\u{323}","\u{122}\u{323}","\u{47}\u{327}\u{323}"],["\u{1e28}\u{323}","\u{48}\u{327}\u{323}","\u{1e28}\u{323}","\u{48}\u{327}\u{323}"],["\u{1eca}\u{327}","\u{49}\u{327}\u{323}","\u{1eca}\u{327}","\u{49}\u{327}\u{323}"],["\u{4a}\u{327}\u{323}","\u{4a}\u{327}\u{323}","\u{4a}\u{327}\u{323}","\u{4a}\u{327}\u{323}"],["\u{136}\u{323}","\u{4b}\u{327}\u{323}","\u{136}\u{323}","\u{4b}\u{327}\u{323}"],["\u{13b}\u{323}","\u{4c}\u{327}\u{323}","\u{13b}\u{323}","\u{4c}\u{327}\u{323}"],["\u{1e42}\u{327}","\u{4d}\u{327}\u{323}","\u{1e42}\u{327}","\u{4d}\u{327}\u{323}"],["\u{145}\u{323}","\u{4e}\u{327}\u{323}","\u{145}\u{323}","\u{4e}\u{327}\u{323}"],["\u{1ecc}\u{327}","\u{4f}\u{327}\u{323}","\u{1ecc}\u{327}","\u{4f}\u{327}\u{323}"],["\u{50}\u{327}\u{323}","\u{50}\u{327}\u{323}","\u{50}\u{327}\u{323}","\u{50}\u{327}\u{323}"],["\u{51}\u{327}\u{323}","\u{51}\u{327}\u{323}","\u{51}\u{327}\u{323}","\u{51}\u{327}\u{323}"],["\u{156}\u{323}","\u{52}\u{327}\u{323}","\u{156}\u{323}","\u{52}\u{327}\u{323}"],["\u{15e}\u{323}","\u{53}\u{327}\u{323}","\u{15e}\u{323}","\u{53}\u{327}\u{323}"],["\u{162}\u{323}","\u{54}\u{327}\u{323}","\u{162}\u{323}","\u{54}\u{327}\u{323}"],["\u{1ee4}\u{327}","\u{55}\u{327}\u{323}","\u{1ee4}\u{327}","\u{55}\u{327}\u{323}"],["\u{1e7e}\u{327}","\u{56}\u{327}\u{323}","\u{1e7e}\u{327}","\u{56}\u{327}\u{323}"],["\u{1e88}\u{327}","\u{57}\u{327}\u{323}","\u{1e88}\u{327}","\u{57}\u{327}\u{323}"],["\u{58}\u{327}\u{323}","\u{58}\u{327}\u{323}","\u{58}\u{327}\u{323}","\u{58}\u{327}\u{323}"],["\u{1ef4}\u{327}","\u{59}\u{327}\u{323}","\u{1ef4}\u{327}","\u{59}\u{327}\u{323}"],["\u{1e92}\u{327}","\u{5a}\u{327}\u{323}","\u{1e92}\u{327}","\u{5a}\u{327}\u{323}"],["\u{5b}\u{327}\u{323}","\u{5b}\u{327}\u{323}","\u{5b}\u{327}\u{323}","\u{5b}\u{327}\u{323}"],["\u{5c}\u{327}\u{323}","\u{5c}\u{327}\u{323}","\u{5c}\u{327}\u{323}","\u{5c}\u{327}\u{323}"],["\u{5d}\u{327}\u{323}","\u{5d}\u{327}\u{323}","\u{5d}\u{327}\u{323}","\u{5d}\u{327}\u{323}"],["\u{5e}\u{327}\u{323}","\u{5e}\u{327}\u{323}","\u{5e}\u{327}\u{323}","\u{5e}\u{327}\u{323}"],["\u{5f}\u{327}\u{323}","\u{5f}\u{327}\u{323}","\u{5f}\u{327}\u{323}","\u{5f}\u{327}\u{323}"],["\u{60}\u{327}\u{323}","\u{60}\u{327}\u{323}","\u{60}\u{327}\u{323}","\u{60}\u{327}\u{323}"],["\u{1ea1}\u{327}","\u{61}\u{327}\u{323}","\u{1ea1}\u{327}","\u{61}\u{327}\u{323}"],["\u{1e05}\u{327}","\u{62}\u{327}\u{323}","\u{1e05}\u{327}","\u{62}\u{327}\u{323}"],["\u{e7}\u{323}","\u{63}\u{327}\u{323}","\u{e7}\u{323}","\u{63}\u{327}\u{323}"],["\u{1e11}\u{323}","\u{64}\u{327}\u{323}","\u{1e11}\u{323}","\u{64}\u{327}\u{323}"],["\u{229}\u{323}","\u{65}\u{327}\u{323}","\u{229}\u{323}","\u{65}\u{327}\u{323}"],["\u{66}\u{327}\u{323}","\u{66}\u{327}\u{323}","\u{66}\u{327}\u{323}","\u{66}\u{327}\u{323}"],["\u{123}\u{323}","\u{67}\u{327}\u{323}","\u{123}\u{323}","\u{67}\u{327}\u{323}"],["\u{1e29}\u{323}","\u{68}\u{327}\u{323}","\u{1e29}\u{323}","\u{68}\u{327}\u{323}"],["\u{1ecb}\u{327}","\u{69}\u{327}\u{323}","\u{1ecb}\u{327}","\u{69}\u{327}\u{323}"],["\u{6a}\u{327}\u{323}","\u{6a}\u{327}\u{323}","\u{6a}\u{327}\u{323}","\u{6a}\u{327}\u{323}"],["\u{137}\u{323}","\u{6b}\u{327}\u{323}","\u{137}\u{323}","\u{6b}\u{327}\u{323}"],["\u{13c}\u{323}","\u{6c}\u{327}\u{323}","\u{13c}\u{323}","\u{6c}\u{327}\u{323}"],["\u{1e43}\u{327}","\u{6d}\u{327}\u{323}","\u{1e43}\u{327}","\u{6d}\u{327}\u{323}"],["\u{146}\u{323}","\u{6e}\u{327}\u{323}","\u{146}\u{323}","\u{6e}\u{327}\u{323}"],["\u{1ecd}\u{327}","\u{6f}\u{327}\u{323}","\u{1ecd}\u{327}","\u{6f}\u{327}\u{323}"],["\u{70}\u{327}\u{323}","\u{70}\u{327}\u{323}","\u{70}\u{327}\u{323}","\u{70}\u{327}\u{323}"],["\u{71}\u{327}\u{323}","\u{71}\u{327}\u{323}","\u{71}\u{327}\u{323}","\u{71}\u{327}\u{323}"],["\u{157}\u{323}","\u{72}\u{327}\u{323}","\u{157}\u{323}","\u{72}\u{327}\u{323}"],["\u{15f}\u{323}","\u{73}\u{327}\u{323}","\u{15f}\u{323}","\u{73}\u{327}\u{323}"],["\u{163}\u{323}","\u{74}\u{327}\u{323}","\u{163}\u{323}","\u{74}\u{327}\u{323}"],["\u{1ee5}\u{327}","\u{75}\u{327}\u{323}","\u{1ee5}\u{327}","\u{75}\u{327}\u{323}"],["\u{1e7f}\u{327}","\u{76}\u{327}\u{323}","\u{1e7f}\u{327}","\u{76}\u{327}\u{323}"],["\u{1e89}\u{327}","\u{77}\u{327}\u{323}","\u{1e89}\u{327}","\u{77}\u{327}\u{323}"],["\u{78}\u{327}\u{323}","\u{78}\u{327}\u{323}","\u{78}\u{327}\u{323}","\u{78}\u{327}\u{323}"],["\u{1ef5}\u{327}","\u{79}\u{327}\u{323}","\u{1ef5}\u{327}","\u{79}\u{327}\u{323}"],["\u{1e93}\u{327}","\u{7a}\u{327}\u{323}","\u{1e93}\u{327}","\u{7a}\u{327}\u{323}"]],
[["\u{41}\u{327}\u{327}","\u{41}\u{327}\u{327}","\u{41}\u{327}\u{327}","\u{41}\u{327}\u{327}"],["\u{42}\u{327}\u{327}","\u{42}\u{327}\u{327}","\u{42}\u{327}\u{327}","\u{42}\u{327}\u{327}"],["\u{c7}\u{327}","\u{43}\u{327}\u{327}","\u{c7}\u{327}","\u{43}\u{327}\u{327}"],["\u{1e10}\u{327}","\u{44}\u{327}\u{327}","\u{1e10}\u{327}","\u{44}\u{327}\u{327}"],["\u{228}\u{327}","\u{45}\u{327}\u{327}","\u{228}\u{327}","\u{45}\u{327}\u{327}"],["\u{46}\u{327}\u{327}","\u{46}\u{327}\u{327}","\u{46}\u{327}\u{327}","\u{46}\u{327}\u{327}"],["\u{122}\u{327}","\u{47}\u{327}\u{327}","\u{122}\u{327}","\u{47}\u{327}\u{327}"],["\u{1e28}\u{327}","\u{48}\u{327}\u{327}","\u{1e28}\u{327}","\u{48}\u{327}\u{327}"],["\u{49}\u{327}\u{327}","\u{49}\u{327}\u{327}","\u{49}\u{327}\u{327}","\u{49}\u{327}\u{327}"],["\u{4a}\u{327}\u{327}","\u{4a}\u{327}\u{327}","\u{4a}\u{327}\u{327}","\u{4a}\u{327}\u{327}"],["\u{136}\u{327}","\u{4b}\u{327}\u{327}","\u{136}\u{327}","\u{4b}\u{327}\u{327}"],["\u{13b}\u{327}","\u{4c}\u{327}\u{327}","\u{13b}\u{327}","\u{4c}\u{327}\u{327}"],["\u{4d}\u{327}\u{327}","\u{4d}\u{327}\u{327}","\u{4d}\u{327}\u{327}","\u{4d}\u{327}\u{327}"],["\u{145}\u{327}","\u{4e}\u{327}\u{327}","\u{145}\u{327}","\u{4e}\u{327}\u{327}"],["\u{4f}\u{327}\u{327}","\u{4f}\u{327}\u{327}","\u{4f}\u{327}\u{327}","\u{4f}\u{327}\u{327}"],["\u{50}\u{327}\u{327}","\u{50}\u{327}\u{327}","\u{50}\u{327}\u{327}","\u{50}\u{327}\u{327}"],["\u{51}\u{327}\u{327}","\u{51}\u{327}\u{327}","\u{51}\u{327}\u{327}","\u{51}\u{327}\u{327}"],["\u{156}\u{327}","\u{52}\u{327}\u{327}","\u{156}\u{327}","\u{52}\u{327}\u{327}"],["\u{15e}\u{327}","\u{53}\u{327}\u{327}","\u{15e}\u{327}","\u{53}\u{327}\u{327}"],["\u{162}\u{327}","\u{54}\u{327}\u{327}","\u{162}\u{327}","\u{54}\u{327}\u{327}"],["\u{55}\u{327}\u{327}","\u{55}\u{327}\u{327}","\u{55}\u{327}\u{327}","\u{55}\u{327}\u{327}"],["\u{56}\u{327}\u{327}","\u{56}\u{327}\u{327}","\u{56}\u{327}\u{327}","\u{56}\u{327}\u{327}"],["\u{57}\u{327}\u{327}","\u{57}\u{327}\u{327}","\u{57}\u{327}\u{327}","\u{57}\u{327}\u{327}"],["\u{58}\u{327}\u{327}","\u{58}\u{327}\u{327}","\u{58}\u{327}\u{327}","\u{58}\u{327}\u{327}"],["\u{59}\u{327}\u{327}","\u{59}\u{327}\u{327}","\u{59}\u{327}\u{327}","\u{59}\u{327}\u{327}"],["\u{5a}\u{327}\u{327}","\u{5a}\u{327}\u{327}","\u{5a}\u{327}\u{327}","\u{5a}\u{327}\u{327}"],["\u{5b}\u{327}\u{327}","\u{5b}\u{327}\u{327}","\u{5b}\u{327}\u{327}","\u{5b}\u{327}\u{327}"],["\u{5c}\u{327}\u{327}","\u{5c}\u{327}\u{327}","\u{5c}\u{327}\u{327}","\u{5c}\u{327}\u{327}"],["\u{5d}\u{327}\u{327}","\u{5d}\u{327}\u{327}","\u{5d}\u{327}\u{327}","\u{5d}\u{327}\u{327}"],["\u{5e}\u{327}\u{327}","\u{5e}\u{327}\u{327}","\u{5e}\u{327}\u{327}","\u{5e}\u{327}\u{327}"],["\u{5f}\u{327}\u{327}","\u{5f}\u{327}\u{327}","\u{5f}\u{327}\u{327}","\u{5f}\u{327}\u{327}"],["\u{60}\u{327}\u{327}","\u{60}\u{327}\u{327}","\u{60}\u{327}\u{327}","\u{60}\u{327}\u{327}"],["\u{61}\u{327}\u{327}","\u{61}\u{327}\u{327}","\u{61}\u{327}\u{327}","\u{61}\u{327}\u{327}"],["\u{62}\u{327}\u{327}","\u{62}\u{327}\u{327}","\u{62}\u{327}\u{327}","\u{62}\u{327}\u{327}"],["\u{e7}\u{327}","\u{63}\u{327}\u{327}","\u{e7}\u{327}","\u{63}\u{327}\u{327}"],["\u{1e11}\u{327}","\u{64}\u{327}\u{327}","\u{1e11}\u{327}","\u{64}\u{327}\u{327}"],["\u{229}\u{327}","\u{65}\u{327}\u{327}","\u{229}\u{327}","\u{65}\u{327}\u{327}"],["\u{66}\u{327}\u{327}","\u{66}\u{327}\u{327}","\u{66}\u{327}\u{327}","\u{66}\u{327}\u{327}"],["\u{123}\u{327}","\u{67}\u{327}\u{327}","\u{123}\u{327}","\u{67}\u{327}\u{327}"],["\u{1e29}\u{327}","\u{68}\u{327}\u{327}","\u{1e29}\u{327}","\u{68}\u{327}\u{327}"],["\u{69}\u{327}\u{327}","\u{69}\u{327}\u{327}","\u{69}\u{327}\u{327}","\u{69}\u{327}\u{327}"],["\u{6a}\u{327}\u{327}","\u{6a}\u{327}\u{327}","\u{6a}\u{327}\u{327}","\u{6a}\u{327}\u{327}"],["\u{137}\u{327}","\u{6b}\u{327}\u{327}","\u{137}\u{327}","\u{6b}\u{327}\u{327}"],["\u{13c}\u{327}","\u{6c}\u{327}\u{327}","\u{13c}\u{327}","\u{6c}\u{327}\u{327}"],["\u{6d}\u{327}\u{327}","\u{6d}\u{327}\u{327}","\u{6d}\u{327}\u{327}","\u{6d}\u{327}\u{327}"],["\u{146}\u{327}","\u{6e}\u{327}\u{327}","\u{146}\u{327}","\u{6e}\u{327}\u{327}"],["\u{6f}\u{327}\u{327}","\u{6f}\u{327}\u{327}","\u{6f}\u{327}\u{327}","\u{6f}\u{327}\u{327}"],["\u{70}\u{327}\u{327}","\u{70}\u{327}\u{327}","\u{70}\u{327}\u{327}","\u{70}\u{327}\u{327}"],["\u{71}\u{327}\u{327}","\u{71}\u{327}\u{327}","\u{71}\u{327}\u{327}","\u{71}\u{327}\u{327}"],["\u{157}\u{327}","\u{72}\u{327}\u{327}","\u{157}\u{327}","\u{72}\u{327}\u{327}"],["\u{15f}\u{327}","\u{73}\u{327}\u{327}","\u{15f}\u{327}","\u{73}\u{327}\u{327}"],["\u{163}\u{327}","\u{74}\u{327}\u{327}","\u{163}\u{327}","\u{74}\u{327}\u{327}"],["\u{75}\u{327}\u{327}","\u{75}\u{327}\u{327}","\u{75}\u{327}\u{327}","\u{75}\u{327}\u{327}"],["\u{76}\u{327}\u{327}","\u{76}\u{327}\u{327}","\u{76}\u{327}\u{327}","\u{76}\u{327}\u{327}"],["\u{77}\u{327}\u{327}","\u{77}\u{327}\u{327}","\u{77}\u{327}\u{327}","\u{77}\u{327}\u{327}"],["\u{78}\u{327}\u{327}","\u{78}\u{327}\u{327}","\u{78}\u{327}\u{327}","\u{78}\u{327}\u{327}"],["\u{79}\u{327}\u{327}","\u{79}\u{327}\u{327}","\u{79}\u{327}\u{327}","\u{79}\u{327}\u{327}"],["\u{7a}\u{327}\u{327}","\u{7a}\u{327}\u{327}","\u{7a}\u{327}\u{327}","\u{7a}\u{327}\u{327}"]],
[["\u{41}\u{327}\u{31b}","\u{41}\u{327}\u{31b}","\u{41}\u{327}\u{31b}","\u{41}\u{327}\u{31b}"],["\u{42}\u{327}\u{31b}","\u{42}\u{327}\u{31b}","\u{42}\u{327}\u{31b}","\u{42}\u{327}\u{31b}"],["\u{c7}\u{31b}","\u{43}\u{327}\u{31b}","\u{c7}\u{31b}","\u{43}\u{327}\u{31b}"],["\u{1e10}\u{31b}","\u{44}\u{327}\u{31b}","\u{1e10}\u{31b}","\u{44}\u{327}\u{31b}"],["\u{228}\u{31b}","\u{45}\u{327}\u{31b}","\u{228}\u{31b}","\u{45}\u{327}\u{31b}"],["\u{46}\u{327}\u{31b}","\u{46}\u{327}\u{31b}","\u{46}\u{327}\u{31b}","\u{46}\u{327}\u{31b}"],["\u{122}\u{31b}","\u{47}\u{327}\u{31b}","\u{122}\u{31b}","\u{47}\u{327}\u{31b}"],["\u{1e28}\u{31b}","\u{48}\u{327}\u{31b}","\u{1e28}\u{31b}","\u{48}\u{327}\u{31b}"],["\u{49}\u{327}\u{31b}","\u{49}\u{327}\u{31b}","\u{49}\u{327}\u{31b}","\u{49}\u{327}\u{31b}"],["\u{4a}\u{327}\u{31b}","\u{4a}\u{327}\u{31b}","\u{4a}\u{327}\u{31b}","\u{4a}\u{327}\u{31b}"],["\u{136}\u{31b}","\u{4b}\u{327}\u{31b}","\u{136}\u{31b}","\u{4b}\u{327}\u{31b}"],["\u{13b}\u{31b}","\u{4c}\u{327}\u{31b}","\u{13b}\u{31b}","\u{4c}\u{327}\u{31b}"],["\u{4d}\u{327}\u{31b}","\u{4d}\u{327}\u{31b}","\u{4d}\u{327}\u{31b}","\u{4d}\u{327}\u{31b}"],["\u{145}\u{31b}","\u{4e}\u{327}\u{31b}","\u{145}\u{31b}","\u{4e}\u{327}\u{31b}"],["\u{1a0}\u{327}","\u{4f}\u{327}\u{31b}","\u{1a0}\u{327}","\u{4f}\u{327}\u{31b}"],["\u{50}\u{327}\u{31b}","\u{50}\u{327}\u{31b}","\u{50}\u{327}\u{31b}","\u{50}\u{327}\u{31b}"],["\u{51}\u{327}\u{31b}","\u{51}\u{327}\u{31b}","\u{51}\u{327}\u{31b}","\u{51}\u{327}\u{31b}"],["\u{156}\u{31b}","\u{52}\u{327}\u{31b}","\u{156}\u{31b}","\u{52}\u{327}\u{31b}"],["\u{15e}\u{31b}","\u{53}\u{327}\u{31b}","\u{15e}\u{31b}","\u{53}\u{327}\u{31b}"],["\u{162}\u{31b}","\u{54}\u{327}\u{31b}","\u{162}\u{31b}","\u{54}\u{327}\u{31b}"],["\u{1af}\u{327}","\u{55}\u{327}\u{31b}","\u{1af}\u{327}","\u{55}\u{327}\u{31b}"],["\u{56}\u{327}\u{31b}","\u{56}\u{327}\u{31b}","\u{56}\u{327}\u{31b}","\u{56}\u{327}\u{31b}"],["\u{57}\u{327}\u{31b}","\u{57}\u{327}\u{31b}","\u{57}\u{327}\u{31b}","\u{57}\u{327}\u{31b}"],["\u{58}\u{327}\u{31b}","\u{58}\u{327}\u{31b}","\u{58}\u{327}\u{31b}","\u{58}\u{327}\u{31b}"],["\u{59}\u{327}\u{31b}","\u{59}\u{327}\u{31b}","\u{59}\u{327}\u{31b}","\u{59}\u{327}\u{31b}"],["\u{5a}\u{327}\u{31b}","\u{5a}\u{327}\u{31b}","\u{5a}\u{327}\u{31b}","\u{5a}\u{327}\u{31b}"],["\u{5b}\u{327}\u{31b}","\u{5b}\u{327}\u{31b}","\u{5b}\u{327}\u{31b}","\u{5b}\u{327}\u{31b}"],["\u{5c}\u{327}\u{31b}","\u{5c}\u{327}\u{31b}","\u{5c}\u{327}\u{31b}","\u{5c}\u{327}\u{31b}"],["\u{5d}\u{327}\u{31b}","\u{5d}\u{327}\u{31b}","\u{5d}\u{327}\u{31b}","\u{5d}\u{327}\u{31b}"],["\u{5e}\u{327}\u{31b}","\u{5e}\u{327}\u{31b}","\u{5e}\u{327}\u{31b}","\u{5e}\u{327}\u{31b}"],["\u{5f}\u{327}\u{31b}","\u{5f}\u{327}\u{31b}","\u{5f}\u{327}\u{31b}","\u{5f}\u{327}\u{31b}"],["\u{60}\u{327}\u{31b}","\u{60}\u{327}\u{31b}","\u{60}\u{327}\u{31b}","\u{60}\u{327}\u{31b}"],["\u{61}\u{327}\u{31b}","\u{61}\u{327}\u{31b}","\u{61}\u{327}\u{31b}","\u{61}\u{327}\u{31b}"],["\u{62}\u{327}\u{31b}","\u{62}\u{327}\u{31b}","\u{62}\u{327}\u{31b}","\u{62}\u{327}\u{31b}"],["\u{e7}\u{31b}","\u{63}\u{327}\u{31b}","\u{e7}\u{31b}","\u{63}\u{327}\u{31b}"],["\u{1e11}\u{31b}","\u{64}\u{327}\u{31b}","\u{1e11}\u{31b}","\u{64}\u{327}\u{31b}"],["\u{229}\u{31b}","\u{65}\u{327}\u{31b}","\u{229}\u{31b}","\u{65}\u{327}\u{31b}"],["\u{66}\u{327}\u{31b}","\u{66}\u{327}\u{31b}","\u{66}\u{327}\u{31b}","\u{66}\u{327}\u{31b}"],["\u{123}\u{31b}","\u{67}\u{327}\u{31b}","\u{123}\u{31b}","\u{67}\u{327}\u{31b}"],["\u{1e29}\u{31b}","\u{68}\u{327}\u{31b}","\u{1e29}\u{31b}","\u{68}\u{327}\u{31b}"],["\u{69}\u{327}\u{31b}","\u{69}\u{327}\u{31b}","\u{69}\u{327}\u{31b}","\u{69}\u{327}\u{31b}"],["\u{6a}\u{327}\u{31b}","\u{6a}\u{327}\u{31b}","\u{6a}\u{327}\u{31b}","\u{6a}\u{327}\u{31b}"],["\u{137}\u{31b}","\u{6b}\u{327}\u{31b}","\u{137}\u{31b}","\u{6b}\u{327}\u{31b}"],["\u{13c}\u{31b}","\u{6c}\u{327}\u{31b}","\u{13c}\u{31b}","\u{6c}\u{327}\u{31b}"],["\u{6d}\u{327}\u{31b}","\u{6d}\u{327}\u{31b}","\u{6d}\u{327}\u{31b}","\u{6d}\u{327}\u{31b}"],["\u{146}\u{31b}","\u{6e}\u{327}\u{31b}","\u{146}\u{31b}","\u{6e}\u{327}\u{31b}"],["\u{1a1}\u{327}","\u{6f}\u{327}\u{31b}","\u{1a1}\u{327}","\u{6f}\u{327}\u{31b}"],["\u{70}\u{327}\u{31b}","\u{70}\u{327}\u{31b}","\u{70}\u{327}\u{31b}","\u{70}\u{327}\u{31b}"],["\u{71}\u{327}\u{31b}","\u{71}\u{327}\u{31b}","\u{71}\u{327}\u{31b}","\u{71}\u{327}\u{31b}"],["\u{157}\u{31b}","\u{72}\u{327}\u{31b}","\u{157}\u{31b}","\u{72}\u{327}\u{31b}"],["\u{15f}\u{31b}","\u{73}\u{327}\u{31b}","\u{15f}\u{31b}","\u{73}\u{327}\u{31b}"],["\u{163}\u{31b}","\u{74}\u{327}\u{31b}","\u{163}\u{31b}","\u{74}\u{327}\u{31b}"],["\u{1b0}\u{327}","\u{75}\u{327}\u{31b}","\u{1b0}\u{327}","\u{75}\u{327}\u{31b}"],["\u{76}\u{327}\u{31b}","\u{76}\u{327}\u{31b}","\u{76}\u{327}\u{31b}","\u{76}\u{327}\u{31b}"],["\u{77}\u{327}\u{31b}","\u{77}\u{327}\u{31b}","\u{77}\u{327}\u{31b}","\u{77}\u{327}\u{31b}"],["\u{78}\u{327}\u{31b}","\u{78}\u{327}\u{31b}","\u{78}\u{327}\u{31b}","\u{78}\u{327}\u{31b}"],["\u{79}\u{327}\u{31b}","\u{79}\u{327}\u{31b}","\u{79}\u{327}\u{31b}","\u{79}\u{327}\u{31b}"],["\u{7a}\u{327}\u{31b}","\u{7a}\u{327}\u{31b}","\u{7a}\u{327}\u{31b}","\u{7a}\u{327}\u{31b}"]],
[["\u{41}\u{327}\u{345}","\u{41}\u{327}\u{345}","\u{41}\u{327}\u{345}","\u{41}\u{327}\u{345}"],["\u{42}\u{327}\u{345}","\u{42}\u{327}\u{345}","\u{42}\u{327}\u{345}","\u{42}\u{327}\u{345}"],["\u{c7}\u{345}","\u{43}\u{327}\u{345}","\u{c7}\u{345}","\u{43}\u{327}\u{345}"],["\u{1e10}\u{345}","\u{44}\u{327}\u{345}","\u{1e10}\u{345}","\u{44}\u{327}\u{345}"],["\u{228}\u{345}","\u{45}\u{327}\u{345}","\u{228}\u{345}","\u{45}\u{327}\u{345}"],["\u{46}\u{327}\u{345}","\u{46}\u{327}\u{345}","\u{46}\u{327}\u{345}","\u{46}\u{327}\u{345}"],["\u{122}\u{345}","\u{47}\u{327}\u{345}","\u{122}\u{345}","\u{47}\u{327}\u{345}"],["\u{1e28}\u{345}","\u{48}\u{327}\u{345}","\u{1e28}\u{345}","\u{48}\u{327}\u{345}"],["\u{49}\u{327}\u{345}","\u{49}\u{327}\u{345}","\u{49}\u{327}\u{345}","\u{49}\u{327}\u{345}"],["\u{4a}\u{327}\u{345}","\u{4a}\u{327}\u{345}","\u{4a}\u{327}\u{345}","\u{4a}\u{327}\u{345}"],["\u{136}\u{345}","\u{4b}\u{327}\u{345}","\u{136}\u{345}","\u{4b}\u{327}\u{345}"],["\u{13b}\u{345}","\u{4c}\u{327}\u{345}","\u{13b}\u{345}","\u{4c}\u{327}\u{345}"],["\u{4d}\u{327}\u{345}","\u{4d}\u{327}\u{345}","\u{4d}\u{327}\u{345}","\u{4d}\u{327}\u{345}"],["\u{145}\u{345}","\u{4e}\u{327}\u{345}","\u{145}\u{345}","\u{4e}\u{327}\u{345}"],["\u{4f}\u{327}\u{345}","\u{4f}\u{327}\u{345}","\u{4f}\u{327}\u{345}","\u{4f}\u{327}\u{345}"],["\u{50}\u{327}\u{345}","\u{50}\u{327}\u{345}","\u{50}\u{327}\u{345}","\u{50}\u{327}\u{345}"],["\u{51}\u{327}\u{345}","\u{51}\u{327}\u{345}","\u{51}\u{327}\u{345}","\u{51}\u{327}\u{345}"],["\u{156}\u{345}","\u{52}\u{327}\u{345}","\u{156}\u{345}","\u{52}\u{327}\u{345}"],["\u{15e}\u{345}","\u{53}\u{327}\u{345}","\u{15e}\u{345}","\u{53}\u{327}\u{345}"],["\u{162}\u{345}","\u{54}\u{327}\u{345}","\u{162}\u{345}","\u{54}\u{327}\u{345}"],["\u{55}\u{327}\u{345}","\u{55}\u{327}\u{345}","\u{55}\u{327}\u{345}","\u{55}\u{327}\u{345}"],["\u{56}\u{327}\u{345}","\u{56}\u{327}\u{345}","\u{56}\u{327}\u{345}","\u{56}\u{327}\u{345}"],["\u{57}\u{327}\u{345}","\u{57}\u{327}\u{345}","\u{57}\u{327}\u{345}","\u{57}\u{327}\u{345}"],["\u{58}\u{327}\u{345}","\u{58}\u{327}\u{345}","\u{58}\u{327}\u{345}","\u{58}\u{327}\u{345}"],["\u{59}\u{327}\u{345}","\u{59}\u{327}\u{345}","\u{59}\u{327}\u{345}","\u{59}\u{327}\u{345}"],["\u{5a}\u{327}\u{345}","\u{5a}\u{327}\u{345}","\u{5a}\u{327}\u{345}","\u{5a}\u{327}\u{345}"],["\u{5b}\u{327}\u{345}","\u{5b}\u{327}\u{345}","\u{5b}\u{327}\u{345}","\u{5b}\u{327}\u{345}"],["\u{5c}\u{327}\u{345}","\u{5c}\u{327}\u{345}","\u{5c}\u{327}\u{345}","\u{5c}\u{327}\u{345}"],["\u{5d}\u{327}\u{345}","\u{5d}\u{327}\u{345}","\u{5d}\u{327}\u{345}","\u{5d}\u{327}\u{345}"],["\u{5e}\u{327}\u{345}","\u{5e}\u{327}\u{345}","\u{5e}\u{327}\u{345}","\u{5e}\u{327}\u{345}"],["\u{5f}\u{327}\u{345}","\u{5f}\u{327}\u{345}","\u{5f}\u{327}\u{345}","\u{5f}\u{327}\u{345}"],["\u{60}\u{327}\u{345}","\u{60}\u{327}\u{345}","\u{60}\u{327}\u{345}","\u{60}\u{327}\u{345}"],["\u{61}\u{327}\u{345}","\u{61}\u{327}\u{345}","\u{61}\u{327}\u{345}","\u{61}\u{327}\u{345}"],["\u{62}\u{327}\u{345}","\u{62}\u{327}\u{345}","\u{62}\u{327}\u{345}","\u{62}\u{327}\u{345}"],["\u{e7}\u{345}","\u{63}\u{327}\u{345}","\u{e7}\u{345}","\u{63}\u{327}\u{345}"],["\u{1e11}\u{345}","\u{64}\u{327}\u{345}","\u{1e11}\u{345}","\u{64}\u{327}\u{345}"],["\u{229}\u{345}","\u{65}\u{327}\u{345}","\u{229}\u{345}","\u{65}\u{327}\u{345}"],["\u{66}\u{327}\u{345}","\u{66}\u{327}\u{345}","\u{66}\u{327}\u{345}","\u{66}\u{327}\u{345}"],["\u{123}\u{345}","\u{67}\u{327}\u{345}","\u{123}\u{345}","\u{67}\u{327}\u{345}"],["\u{1e29}\u{345}","\u{68}\u{327}\u{345}","\u{1e29}\u{345}","\u{68}\u{327}\u{345}"],["\u{69}\u{327}\u{345}","\u{69}\u{327}\u{345}","\u{69}\u{327}\u{345}","\u{69}\u{327}\u{345}"],["\u{6a}\u{327}\u{345}","\u{6a}\u{327}\u{345}","\u{6a}\u{327}\u{345}","\u{6a}\u{327}\u{345}"],["\u{137}\u{345}","\u{6b}\u{327}\u{345}","\u{137}\u{345}","\u{6b}\u{327}\u{345}"],["\u{13c}\u{345}","\u{6c}\u{327}\u{345}","\u{13c}\u{345}","\u{6c}\u{327}\u{345}"],["\u{6d}\u{327}\u{345}","\u{6d}\u{327}\u{345}","\u{6d}\u{327}\u{345}","\u{6d}\u{327}\u{345}"],["\u{146}\u{345}","\u{6e}\u{327}\u{345}","\u{146}\u{345}","\u{6e}\u{327}\u{345}"],["\u{6f}\u{327}\u{345}","\u{6f}\u{327}\u{345}","\u{6f}\u{327}\u{345}","\u{6f}\u{327}\u{345}"],["\u{70}\u{327}\u{345}","\u{70}\u{327}\u{345}","\u{70}\u{327}\u{345}","\u{70}\u{327}\u{345}"],["\u{71}\u{327}\u{345}","\u{71}\u{327}\u{345}","\u{71}\u{327}\u{345}","\u{71}\u{327}\u{345}"],["\u{157}\u{345}","\u{72}\u{327}\u{345}","\u{157}\u{345}","\u{72}\u{327}\u{345}"],["\u{15f}\u{345}","\u{73}\u{327}\u{345}","\u{15f}\u{345}","\u{73}\u{327}\u{345}"],["\u{163}\u{345}","\u{74}\u{327}\u{345}","\u{163}\u{345}","\u{74}\u{327}\u{345}"],["\u{75}\u{327}\u{345}","\u{75}\u{327}\u{345}","\u{75}\u{327}\u{345}","\u{75}\u{327}\u{345}"],["\u{76}\u{327}\u{345}","\u{76}\u{327}\u{345}","\u{76}\u{327}\u{345}","\u{76}\u{327}\u{345}"],["\u{77}\u{327}\u{345}","\u{77}\u{327}\u{345}","\u{77}\u{327}\u{345}","\u{77}\u{327}\u{345}"],["\u{78}\u{327}\u{345}","\u{78}\u{327}\u{345}","\u{78}\u{327}\u{345}","\u{78}\u{327}\u{345}"],["\u{79}\u{327}\u{345}","\u{79}\u{327}\u{345}","\u{79}\u{327}\u{345}","\u{79}\u{327}\u{345}"],["\u{7a}\u{327}\u{345}","\u{7a}\u{327}\u{345}","\u{7a}\u{327}\u{345}","\u{7a}\u{327}\u{345}"]],
[["\u{41}\u{20d2}\u{327}","\u{41}\u{20d2}\u{327}","\u{41}\u{20d2}\u{327}","\u{41}\u{20d2}\u{327}"],["\u{42}\u{20d2}\u{327}","\u{42}\u{20d2}\u{327}","\u{42}\u{20d2}\u{327}","\u{42}\u{20d2}\u{327}"],["\u{c7}\u{20d2}","\u{43}\u{20d2}\u{327}","\u{c7}\u{20d2}","\u{43}\u{20d2}\u{327}"],["\u{1e10}\u{20d2}","\u{44}\u{20d2}\u{327}","\u{1e10}\u{20d2}","\u{44}\u{20d2}\u{327}"],["\u{228}\u{20d2}","\u{45}\u{20d2}\u{327}","\u{228}\u{20d2}","\u{45}\u{20d2}\u{327}"],["\u{46}\u{20d2}\u{327}","\u{46}\u{20d2}\u{327}","\u{46}\u{20d2}\u{327}","\u{46}\u{20d2}\u{327}"],["\u{122}\u{20d2}","\u{47}\u{20d2}\u{327}","\u{122}\u{20d2}","\u{47}\u{20d2}\u{327}"],["\u{1e28}\u{20d2}","\u{48}\u{20d2}\u{327}","\u{1e28}\u{20d2}","\u{48}\u{20d2}\u{327}"],["\u{49}\u{20d2}\u{327}","\u{49}\u{20d2}\u{327}","\u{49}\u{20d2}\u{327}","\u{49}\u{20d2}\u{327}"],["\u{4a}\u{20d2}\u{327}","\u{4a}\u{20d2}\u{327}","\u{4a}\u{20d2}\u{327}","\u{4a}\u{20d2}\u{327}"],["\u{136}\u{20d2}","\u{4b}\u{20d2}\u{327}","\u{136}\u{20d2}","\u{4b}\u{20d2}\u{327}"],["\u{13b}\u{20d2}","\u{4c}\u{20d2}\u{327}","\u{13b}\u{20d2}","\u{4c}\u{20d2}\u{327}"],["\u{4d}\u{20d2}\u{327}","\u{4d}\u{20d2}\u{327}","\u{4d}\u{20d2}\u{327}","\u{4d}\u{20d2}\u{327}"],["\u{145}\u{20d2}","\u{4e}\u{20d2}\u{327}","\u{145}\u{20d2}","\u{4e}\u{20d2}\u{327}"],["\u{4f}\u{20d2}\u{327}","\u{4f}\u{20d2}\u{327}","\u{4f}\u{20d2}\u{327}","\u{4f}\u{20d2}\u{327}"],["\u{50}\u{20d2}\u{327}","\u{50}\u{20d2}\u{327}","\u{50}\u{20d2}\u{327}","\u{50}\u{20d2}\u{327}"],["\u{51}\u{20d2}\u{327}","\u{51}\u{20d2}\u{327}","\u{51}\u{20d2}\u{327}","\u{51}\u{20d2}\u{327}"],["\u{156}\u{20d2}","\u{52}\u{20d2}\u{327}","\u{156}\u{20d2}","\u{52}\u{20d2}\u{327}"],["\u{15e}\u{20d2}","\u{53}\u{20d2}\u{327}","\u{15e}\u{20d2}","\u{53}\u{20d2}\u{327}"],["\u{162}\u{20d2}","\u{54}\u{20d2}\u{327}","\u{162}\u{20d2}","\u{54}\u{20d2}\u{327}"],["\u{55}\u{20d2}\u{327}","\u{55}\u{20d2}\u{327}","\u{55}\u{20d2}\u{327}","\u{55}\u{20d2}\u{327}"],["\u{56}\u{20d2}\u{327}","\u{56}\u{20d2}\u{327}","\u{56}\u{20d2}\u{327}","\u{56}\u{20d2}\u{327}"],["\u{57}\u{20d2}\u{327}","\u{57}\u{20d2}\u{327}","\u{57}\u{20d2}\u{327}","\u{57}\u{20d2}\u{327}"],["\u{58}\u{20d2}\u{327}","\u{58}\u{20d2}\u{327}","\u{58}\u{20d2}\u{327}","\u{58}\u{20d2}\u{327}"],["\u{59}\u{20d2}\u{327}","\u{59}\u{20d2}\u{327}","\u{59}\u{20d2}\u{327}","\u{59}\u{20d2}\u{327}"],["\u{5a}\u{20d2}\u{327}","\u{5a}\u{20d2}\u{327}","\u{5a}\u{20d2}\u{327}","\u{5a}\u{20d2}\u{327}"],["\u{5b}\u{20d2}\u{327}","\u{5b}\u{20d2}\u{327}","\u{5b}\u{20d2}\u{327}","\u{5b}\u{20d2}\u{327}"],["\u{5c}\u{20d2}\u{327}","\u{5c}\u{20d2}\u{327}","\u{5c}\u{20d2}\u{327}","\u{5c}\u{20d2}\u{327}"],["\u{5d}\u{20d2}\u{327}","\u{5d}\u{20d2}\u{327}","\u{5d}\u{20d2}\u{327}","\u{5d}\u{20d2}\u{327}"],["\u{5e}\u{20d2}\u{327}","\u{5e}\u{20d2}\u{327}","\u{5e}\u{20d2}\u{327}","\u{5e}\u{20d2}\u{327}"],["\u{5f}\u{20d2}\u{327}","\u{5f}\u{20d2}\u{327}","\u{5f}\u{20d2}\u{327}","\u{5f}\u{20d2}\u{327}"],["\u{60}\u{20d2}\u{327}","\u{60}\u{20d2}\u{327}","\u{60}\u{20d2}\u{327}","\u{60}\u{20d2}\u{327}"],["\u{61}\u{20d2}\u{327}","\u{61}\u{20d2}\u{327}","\u{61}\u{20d2}\u{327}","\u{61}\u{20d2}\u{327}"],["\u{62}\u{20d2}\u{327}","\u{62}\u{20d2}\u{327}","\u{62}\u{20d2}\u{327}","\u{62}\u{20d2}\u{327}"],["\u{e7}\u{20d2}","\u{63}\u{20d2}\u{327}","\u{e7}\u{20d2}","\u{63}\u{20d2}\u{327}"],["\u{1e11}\u{20d2}","\u{64}\u{20d2}\u{327}","\u{1e11}\u{20d2}","\u{64}\u{20d2}\u{327}"],["\u{229}\u{20d2}","\u{65}\u{20d2}\u{327}","\u{229}\u{20d2}","\u{65}\u{20d2}\u{327}"],["\u{66}\u{20d2}\u{327}","\u{66}\u{20d2}\u{327}","\u{66}\u{20d2}\u{327}","\u{66}\u{20d2}\u{327}"],["\u{123}\u{20d2}","\u{67}\u{20d2}\u{327}","\u{123}\u{20d2}","\u{67}\u{20d2}\u{327}"],["\u{1e29}\u{20d2}","\u{68}\u{20d2}\u{327}","\u{1e29}\u{20d2}","\u{68}\u{20d2}\u{327}"],["\u{69}\u{20d2}\u{327}","\u{69}\u{20d2}\u{327}","\u{69}\u{20d2}\u{327}","\u{69}\u{20d2}\u{327}"],["\u{6a}\u{20d2}\u{327}","\u{6a}\u{20d2}\u{327}","\u{6a}\u{20d2}\u{327}","\u{6a}\u{20d2}\u{327}"],["\u{137}\u{20d2}","\u{6b}\u{20d2}\u{327}","\u{137}\u{20d2}","\u{6b}\u{20d2}\u{327}"],["\u{13c}\u{20d2}","\u{6c}\u{20d2}\u{327}","\u{13c}\u{20d2}","\u{6c}\u{20d2}\u{327}"],["\u{6d}\u{20d2}\u{327}","\u{6d}\u{20d2}\u{327}","\u{6d}\u{20d2}\u{327}","\u{6d}\u{20d2}\u{327}"],["\u{146}\u{20d2}","\u{6e}\u{20d2}\u{327}","\u{146}\u{20d2}","\u{6e}\u{20d2}\u{327}"],["\u{6f}\u{20d2}\u{327}","\u{6f}\u{20d2}\u{327}","\u{6f}\u{20d2}\u{327}","\u{6f}\u{20d2}\u{327}"],["\u{70}\u{20d2}\u{327}","\u{70}\u{20d2}\u{327}","\u{70}\u{20d2}\u{327}","\u{70}\u{20d2}\u{327}"],["\u{71}\u{20d2}\u{327}","\u{71}\u{20d2}\u{327}","\u{71}\u{20d2}\u{327}","\u{71}\u{20d2}\u{327}"],["\u{157}\u{20d2}","\u{72}\u{20d2}\u{327}","\u{157}\u{20d2}","\u{72}\u{20d2}\u{327}"],["\u{15f}\u{20d2}","\u{73}\u{20d2}\u{327}","\u{15f}\u{20d2}","\u{73}\u{20d2}\u{327}"],["\u{163}\u{20d2}","\u{74}\u{20d2}\u{327}","\u{163}\u{20d2}","\u{74}\u{20d2}\u{327}"],["\u{75}\u{20d2}\u{327}","\u{75}\u{20d2}\u{327}","\u{75}\u{20d2}\u{327}","\u{75}\u{20d2}\u{327}"],["\u{76}\u{20d2}\u{327}","\u{76}\u{20d2}\u{327}","\u{76}\u{20d2}\u{327}","\u{76}\u{20d2}\u{327}"],["\u{77}\u{20d2}\u{327}","\u{77}\u{20d2}\u{327}","\u{77}\u{20d2}\u{327}","\u{77}\u{20d2}\u{327}"],["\u{78}\u{20d2}\u{327}","\u{78}\u{20d2}\u{327}","\u{78}\u{20d2}\u{327}","\u{78}\u{20d2}\u{327}"],["\u{79}\u{20d2}\u{327}","\u{79}\u{20d2}\u{327}","\u{79}\u{20d2}\u{327}","\u{79}\u{20d2}\u{327}"],["\u{7a}\u{20d2}\u{327}","\u{7a}\u{20d2}\u{327}","\u{7a}\u{20d2}\u{327}","\u{7a}\u{20d2}\u{327}"]],
[["\u{c0}\u{31b}","\u{41}\u{31b}\u{300}","\u{c0}\u{31b}","\u{41}\u{31b}\u{300}"],["\u{42}\u{31b}\u{300}","\u{42}\u{31b}\u{300}","\u{42}\u{31b}\u{300}","\u{42}\u{31b}\u{300}"],["\u{43}\u{31b}\u{300}","\u{43}\u{31b}\u{300}","\u{43}\u{31b}\u{300}","\u{43}\u{31b}\u{300}"],["\u{44}\u{31b}\u{300}","\u{44}\u{31b}\u{300}","\u{44}\u{31b}\u{300}","\u{44}\u{31b}\u{300}"],["\u{c8}\u{31b}","\u{45}\u{31b}\u{300}","\u{c8}\u{31b}","\u{45}\u{31b}\u{300}"],["\u{46}\u{31b}\u{300}","\u{46}\u{31b}\u{300}","\u{46}\u{31b}\u{300}","\u{46}\u{31b}\u{300}"],["\u{47}\u{31b}\u{300}","\u{47}\u{31b}\u{300}","\u{47}\u{31b}\u{300}","\u{47}\u{31b}\u{300}"],["\u{48}\u{31b}\u{300}","\u{48}\u{31b}\u{300}","\u{48}\u{31b}\u{300}","\u{48}\u{31b}\u{300}"],["\u{cc}\u{31b}","\u{49}\u{31b}\u{300}","\u{cc}\u{31b}","\u{49}\u{31b}\u{300}"],["\u{4a}\u{31b}\u{300}","\u{4a}\u{31b}\u{300}","\u{4a}\u{31b}\u{300}","\u{4a}\u{31b}\u{300}"],["\u{4b}\u{31b}\u{300}","\u{4b}\u{31b}\u{300}","\u{4b}\u{31b}\u{300}","\u{4b}\u{31b}\u{300}"],["\u{4c}\u{31b}\u{300}","\u{4c}\u{31b}\u{300}","\u{4c}\u{31b}\u{300}","\u{4c}\u{31b}\u{300}"],["\u{4d}\u{31b}\u{300}","\u{4d}\u{31b}\u{300}","\u{4d}\u{31b}\u{300}","\u{4d}\u{31b}\u{300}"],["\u{1f8}\u{31b}","\u{4e}\u{31b}\u{300}","\u{1f8}\u{31b}","\u{4e}\u{31b}\u{300}"],["\u{1edc}","\u{4f}\u{31b}\u{300}","\u{1edc}","\u{4f}\u{31b}\u{300}"],["\u{50}\u{31b}\u{300}","\u{50}\u{31b}\u{300}","\u{50}\u{31b}\u{300}","\u{50}\u{31b}\u{300}"],["\u{51}\u{31b}\u{300}","\u{51}\u{31b}\u{300}","\u{51}\u{31b}\u{300}","\u{51}\u{31b}\u{300}"],["\u{52}\u{31b}\u{300}","\u{52}\u{31b}\u{300}","\u{52}\u{31b}\u{300}","\u{52}\u{31b}\u{300}"],["\u{53}\u{31b}\u{300}","\u{53}\u{31b}\u{300}","\u{53}\u{31b}\u{300}","\u{53}\u{31b}\u{300}"],["\u{54}\u{31b}\u{300}","\u{54}\u{31b}\u{300}","\u{54}\u{31b}\u{300}","\u{54}\u{31b}\u{300}"],["\u{1eea}","\u{55}\u{31b}\u{300}","\u{1eea}","\u{55}\u{31b}\u{300}"],["\u{56}\u{31b}\u{300}","\u{56}\u{31b}\u{300}","\u{56}\u{31b}\u{300}","\u{56}\u{31b}\u{300}"],["\u{1e80}\u{31b}","\u{57}\u{31b}\u{300}","\u{1e80}\u{31b}","\u{57}\u{31b}\u{300}"],["\u{58}\u{31b}\u{300}","\u{58}\u{31b}\u{300}","\u{58}\u{31b}\u{300}","\u{58}\u{31b}\u{300}"],["\u{1ef2}\u{31b}","\u{59}\u{31b}\u{300}","\u{1ef2}\u{31b}","\u{59}\u{31b}\u{300}"],["\u{5a}\u{31b}\u{300}","\u{5a}\u{31b}\u{300}","\u{5a}\u{31b}\u{300}","\u{5a}\u{31b}\u{300}"],["\u{5b}\u{31b}\u{300}","\u{5b}\u{31b}\u{300}","\u{5b}\u{31b}\u{300}","\u{5b}\u{31b}\u{300}"],["\u{5c}\u{31b}\u{300}","\u{5c}\u{31b}\u{300}","\u{5c}\u{31b}\u{300}","\u{5c}\u{31b}\u{300}"],["\u{5d}\u{31b}\u{300}","\u{5d}\u{31b}\u{300}","\u{5d}\u{31b}\u{300}","\u{5d}\u{31b}\u{300}"],["\u{5e}\u{31b}\u{300}","\u{5e}\u{31b}\u{300}","\u{5e}\u{31b}\u{300}","\u{5e}\u{31b}\u{300}"],["\u{5f}\u{31b}\u{300}","\u{5f}\u{31b}\u{300}","\u{5f}\u{31b}\u{300}","\u{5f}\u{31b}\u{300}"],["\u{60}\u{31b}\u{300}","\u{60}\u{31b}\u{300}","\u{60}\u{31b}\u{300}","\u{60}\u{31b}\u{300}"],["\u{e0}\u{31b}","\u{61}\u{31b}\u{300}","\u{e0}\u{31b}","\u{61}\u{31b}\u{300}"],["\u{62}\u{31b}\u{300}","\u{62}\u{31b}\u{300}","\u{62}\u{31b}\u{300}","\u{62}\u{31b}\u{300}"],["\u{63}\u{31b}\u{300}","\u{63}\u{31b}\u{300}","\u{63}\u{31b}\u{300}","\u{63}\u{31b}\u{300}"],["\u{64}\u{31b}\u{300}","\u{64}\u{31b}\u{300}","\u{64}\u{31b}\u{300}","\u{64}\u{31b}\u{300}"],["\u{e8}\u{31b}","\u{65}\u{31b}\u{300}","\u{e8}\u{31b}","\u{65}\u{31b}\u{300}"],["\u{66}\u{31b}\u{300}","\u{66}\u{31b}\u{300}","\u{66}\u{31b}\u{300}","\u{66}\u{31b}\u{300}"],["\u{67}\u{31b}\u{300}","\u{67}\u{31b}\u{300}","\u{67}\u{31b}\u{300}","\u{67}\u{31b}\u{300}"],["\u{68}\u{31b}\u{300}","\u{68}\u{31b}\u{300}","\u{68}\u{31b}\u{300}","\u{68}\u{31b}\u{300}"],["\u{ec}\u{31b}","\u{69}\u{31b}\u{300}","\u{ec}\u{31b}","\u{69}\u{31b}\u{300}"],["\u{6a}\u{31b}\u{300}","\u{6a}\u{31b}\u{300}","\u{6a}\u{31b}\u{300}","\u{6a}\u{31b}\u{300}"],["\u{6b}\u{31b}\u{300}","\u{6b}\u{31b}\u{300}","\u{6b}\u{31b}\u{300}","\u{6b}\u{31b}\u{300}"],["\u{6c}\u{31b}\u{300}","\u{6c}\u{31b}\u{300}","\u{6c}\u{31b}\u{300}","\u{6c}\u{31b}\u{300}"],["\u{6d}\u{31b}\u{300}","\u{6d}\u{31b}\u{300}","\u{6d}\u{31b}\u{300}","\u{6d}\u{31b}\u{300}"],["\u{1f9}\u{31b}","\u{6e}\u{31b}\u{300}","\u{1f9}\u{31b}","\u{6e}\u{31b}\u{300}"],["\u{1edd}","\u{6f}\u{31b}\u{300}","\u{1edd}","\u{6f}\u{31b}\u{300}"],["\u{70}\u{31b}\u{300}","\u{70}\u{31b}\u{300}","\u{70}\u{31b}\u{300}","\u{70}\u{31b}\u{300}"],["\u{71}\u{31b}\u{300}","\u{71}\u{31b}\u{300}","\u{71}\u{31b}\u{300}","\u{71}\u{31b}\u{300}"],["\u{72}\u{31b}\u{300}","\u{72}\u{31b}\u{300}","\u{72}\u{31b}\u{300}","\u{72}\u{31b}\u{300}"],["\u{73}\u{31b}\u{300}","\u{73}\u{31b}\u{300}","\u{73}\u{31b}\u{300}","\u{73}\u{31b}\u{300}"],["\u{74}\u{31b}\u{300}","\u{74}\u{31b}\u{300}","\u{74}\u{31b}\u{300}","\u{74}\u{31b}\u{300}"],["\u{1eeb}","\u{75}\u{31b}\u{300}","\u{1eeb}","\u{75}\u{31b}\u{300}"],["\u{76}\u{31b}\u{300}","\u{76}\u{31b}\u{300}","\u{76}\u{31b}\u{300}","\u{76}\u{31b}\u{300}"],["\u{1e81}\u{31b}","\u{77}\u{31b}\u{300}","\u{1e81}\u{31b}","\u{77}\u{31b}\u{300}"],["\u{78}\u{31b}\u{300}","\u{78}\u{31b}\u{300}","\u{78}\u{31b}\u{300}","\u{78}\u{31b}\u{300}"],["\u{1ef3}\u{31b}","\u{79}\u{31b}\u{300}","\u{1ef3}\u{31b}","\u{79}\u{31b}\u{300}"],["\u{7a}\u{31b}\u{300}","\u{7a}\u{31b}\u{300}","\u{7a}\u{31b}\u{300}","\u{7a}\u{31b}\u{300}"]],
[["\u{c1}\u{31b}","\u{41}\u{31b}\u{301}","\u{c1}\u{31b}","\u{41}\u{31b}\u{301}"],["\u{42}\u{31b}\u{301}","\u{42}\u{31b}\u{301}","\u{42}\u{31b}\u{301}","\u{42}\u{31b}\u{301}"],["\u{106}\u{31b}","\u{43}\u{31b}\u{301}","\u{106}\u{31b}","\u{43}\u{31b}\u{301}"],["\u{44}\u{31b}\u{301}","\u{44}\u{31b}\u{301}","\u{44}\u{31b}\u{301}","\u{44}\u{31b}\u{301}"],["\u{c9}\u{31b}","\u{45}\u{31b}\u{301}","\u{c9}\u{31b}","\u{45}\u{31b}\u{301}"],["\u{46}\u{31b}\u{301}","\u{46}\u{31b}\u{301}","\u{46}\u{31b}\u{301}","\u{46}\u{31b}\u{301}"],["\u{1f4}\u{31b}","\u{47}\u{31b}\u{301}","\u{1f4}\u{31b}","\u{47}\u{31b}\u{301}"],["\u{48}\u{31b}\u{301}","\u{48}\u{31b}\u{301}","\u{48}\u{31b}\u{301}","\u{48}\u{31b}\u{301}"],["\u{cd}\u{31b}","\u{49}\u{31b}\u{301}","\u{cd}\u{31b}","\u{49}\u{31b}\u{301}"],["\u{4a}\u{31b}\u{301}","\u{4a}\u{31b}\u{301}","\u{4a}\u{31b}\u{301}","\u{4a}\u{31b}\u{301}"],["\u{1e30}\u{31b}","\u{4b}\u{31b}\u{301}","\u{1e30}\u{31b}","\u{4b}\u{31b}\u{301}"],["\u{139}\u{31b}","\u{4c}\u{31b}\u{301}","\u{139}\u{31b}","\u{4c}\u{31b}\u{301}"],["\u{1e3e}\u{31b}","\u{4d}\u{31b}\u{301}","\u{1e3e}\u{31b}","\u{4d}\u{31b}\u{301}"],["\u{143}\u{31b}","\u{4e}\u{31b}\u{301}","\u{143}\u{31b}","\u{4e}\u{31b}\u{301}"],["\u{1eda}","\u{4f}\u{31b}\u{301}","\u{1eda}","\u{4f}\u{31b}\u{301}"],["\u{1e54}\u{31b}","\u{50}\u{31b}\u{301}","\u{1e54}\u{31b}","\u{50}\u{31b}\u{301}"],["\u{51}\u{31b}\u{301}","\u{51}\u{31b}\u{301}","\u{51}\u{31b}\u{301}","\u{51}\u{31b}\u{301}"],["\u{154}\u{31b}","\u{52}\u{31b}\u{301}","\u{154}\u{31b}","\u{52}\u{31b}\u{301}"],["\u{15a}\u{31b}","\u{53}\u{31b}\u{301}","\u{15a}\u{31b}","\u{53}\u{31b}\u{301}"],["\u{54}\u{31b}\u{301}","\u{54}\u{31b}\u{301}","\u{54}\u{31b}\u{301}","\u{54}\u{31b}\u{301}"],["\u{1ee8}","\u{55}\u{31b}\u{301}","\u{1ee8}","\u{55}\u{31b}\u{301}"],["\u{56}\u{31b}\u{301}","\u{56}\u{31b}\u{301}","\u{56}\u{31b}\u{301}","\u{56}\u{31b}\u{301}"],["\u{1e82}\u{31b}","\u{57}\u{31b}\u{301}","\u{1e82}\u{31b}","\u{57}\u{31b}\u{301}"],["\u{58}\u{31b}\u{301}","\u{58}\u{31b}\u{301}","\u{58}\u{31b}\u{301}","\u{58}\u{31b}\u{301}"],["\u{dd}\u{31b}","\u{59}\u{31b}\u{301}","\u{dd}\u{31b}","\u{59}\u{31b}\u{301}"],["\u{179}\u{31b}","\u{5a}\u{31b}\u{301}","\u{179}\u{31b}","\u{5a}\u{31b}\u{301}"],["\u{5b}\u{31b}\u{301}","\u{5b}\u{31b}\u{301}","\u{5b}\u{31b}\u{301}","\u{5b}\u{31b}\u{301}"],["\u{5c}\u{31b}\u{301}","\u{5c}\u{31b}\u{301}","\u{5c}\u{31b}\u{301}","\u{5c}\u{31b}\u{301}"],["\u{5d}\u{31b}\u{301}","\u{5d}\u{31b}\u{301}","\u{5d}\u{31b}\u{301}","\u{5d}\u{31b}\u{301}"],["\u{5e}\u{31b}\u{301}","\u{5e}\u{31b}\u{301}","\u{5e}\u{31b}\u{301}","\u{5e}\u{31b}\u{301}"],["\u{5f}\u{31b}\u{301}","\u{5f}\u{31b}\u{301}","\u{5f}\u{31b}\u{301}","\u{5f}\u{31b}\u{301}"],["\u{60}\u{31b}\u{301}","\u{60}\u{31b}\u{301}","\u{60}\u{31b}\u{301}","\u{60}\u{31b}\u{301}"],["\u{e1}\u{31b}","\u{61}\u{31b}\u{301}","\u{e1}\u{31b}","\u{61}\u{31b}\u{301}"],["\u{62}\u{31b}\u{301}","\u{62}\u{31b}\u{301}","\u{62}\u{31b}\u{301}","\u{62}\u{31b}\u{301}"],["\u{107}\u{31b}","\u{63}\u{31b}\u{301}","\u{107}\u{31b}","\u{63}\u{31b}\u{301}"],["\u{64}\u{31b}\u{301}","\u{64}\u{31b}\u{301}","\u{64}\u{31b}\u{301}","\u{64}\u{31b}\u{301}"],["\u{e9}\u{31b}","\u{65}\u{31b}\u{301}","\u{e9}\u{31b}","\u{65}\u{31b}\u{301}"],["\u{66}\u{31b}\u{301}","\u{66}\u{31b}\u{301}","\u{66}\u{31b}\u{301}","\u{66}\u{31b}\u{301}"],["\u{1f5}\u{31b}","\u{67}\u{31b}\u{301}","\u{1f5}\u{31b}","\u{67}\u{31b}\u{301}"],["\u{68}\u{31b}\u{301}","\u{68}\u{31b}\u{301}","\u{68}\u{31b}\u{301}","\u{68}\u{31b}\u{301}"],["\u{ed}\u{31b}","\u{69}\u{31b}\u{301}","\u{ed}\u{31b}","\u{69}\u{31b}\u{301}"],["\u{6a}\u{31b}\u{301}","\u{6a}\u{31b}\u{301}","\u{6a}\u{31b}\u{301}","\u{6a}\u{31b}\u{301}"],["\u{1e31}\u{31b}","\u{6b}\u{31b}\u{301}","\u{1e31}\u{31b}","\u{6b}\u{31b}\u{301}"],["\u{13a}\u{31b}","\u{6c}\u{31b}\u{301}","\u{13a}\u{31b}","\u{6c}\u{31b}\u{301}"],["\u{1e3f}\u{31b}","\u{6d}\u{31b}\u{301}","\u{1e3f}\u{31b}","\u{6d}\u{31b}\u{301}"],["\u{144}\u{31b}","\u{6e}\u{31b}\u{301}","\u{144}\u{31b}","\u{6e}\u{31b}\u{301}"],["\u{1edb}","\u{6f}\u{31b}\u{301}","\u{1edb}","\u{6f}\u{31b}\u{301}"],["\u{1e55}\u{31b}","\u{70}\u{31b}\u{301}","\u{1e55}\u{31b}","\u{70}\u{31b}\u{301}"],["\u{71}\u{31b}\u{301}","\u{71}\u{31b}\u{301}","\u{71}\u{31b}\u{301}","\u{71}\u{31b}\u{301}"],["\u{155}\u{31b}","\u{72}\u{31b}\u{301}","\u{155}\u{31b}","\u{72}\u{31b}\u{301}"],["\u{15b}\u{31b}","\u{73}\u{31b}\u{301}","\u{15b}\u{31b}","\u{73}\u{31b}\u{301}"],["\u{74}\u{31b}\u{301}","\u{74}\u{31b}\u{301}","\u{74}\u{31b}\u{301}","\u{74}\u{31b}\u{301}"],["\u{1ee9}","\u{75}\u{31b}\u{301}","\u{1ee9}","\u{75}\u{31b}\u{301}"],["\u{76}\u{31b}\u{301}","\u{76}\u{31b}\u{301}","\u{76}\u{31b}\u{301}","\u{76}\u{31b}\u{301}"],["\u{1e83}\u{31b}","\u{77}\u{31b}\u{301}","\u{1e83}\u{31b}","\u{77}\u{31b}\u{301}"],["\u{78}\u{31b}\u{301}","\u{78}\u{31b}\u{301}","\u{78}\u{31b}\u{301}","\u{78}\u{31b}\u{301}"],["\u{fd}\u{31b}","\u{79}\u{31b}\u{301}","\u{fd}\u{31b}","\u{79}\u{31b}\u{301}"],["\u{17a}\u{31b}","\u{7a}\u{31b}\u{301}","\u{17a}\u{31b}","\u{7a}\u{31b}\u{301}"]],
[["\u{c2}\u{31b}","\u{41}\u{31b}\u{302}","\u{c2}\u{31b}","\u{41}\u{31b}\u{302}"],["\u{42}\u{31b}\u{302}","\u{42}\u{31b}\u{302}","\u{42}\u{31b}\u{302}","\u{42}\u{31b}\u{302}"],["\u{108}\u{31b}","\u{43}\u{31b}\u{302}","\u{108}\u{31b}","\u{43}\u{31b}\u{302}"],["\u{44}\u{31b}\u{302}","\u{44}\u{31b}\u{302}","\u{44}\u{31b}\u{302}","\u{44}\u{31b}\u{302}"],["\u{ca}\u{31b}","\u{45}\u{31b}\u{302}","\u{ca}\u{31b}","\u{45}\u{31b}\u{302}"],["\u{46}\u{31b}\u{302}","\u{46}\u{31b}\u{302}","\u{46}\u{31b}\u{302}","\u{46}\u{31b}\u{302}"],["\u{11c}\u{31b}","\u{47}\u{31b}\u{302}","\u{11c}\u{31b}","\u{47}\u{31b}\u{302}"],["\u{124}\u{31b}","\u{48}\u{31b}\u{302}","\u{124}\u{31b}","\u{48}\u{31b}\u{302}"],["\u{ce}\u{31b}","\u{49}\u{31b}\u{302}","\u{ce}\u{31b}","\u{49}\u{31b}\u{302}"],["\u{134}\u{31b}","\u{4a}\u{31b}\u{302}","\u{134}\u{31b}","\u{4a}\u{31b}\u{302}"],["\u{4b}\u{31b}\u{302}","\u{4b}\u{31b}\u{302}","\u{4b}\u{31b}\u{302}","\u{4b}\u{31b}\u{302}"],["\u{4c}\u{31b}\u{302}","\u{4c}\u{31b}\u{302}","\u{4c}\u{31b}\u{302}","\u{4c}\u{31b}\u{302}"],["\u{4d}\u{31b}\u{302}","\u{4d}\u{31b}\u{302}","\u{4d}\u{31b}\u{302}","\u{4d}\u{31b}\u{302}"],["\u{4e}\u{31b}\u{302}","\u{4e}\u{31b}\u{302}","\u{4e}\u{31b}\u{302}","\u{4e}\u{31b}\u{302}"],["\u{1a0}\u{302}","\u{4f}\u{31b}\u{302}","\u{1a0}\u{302}","\u{4f}\u{31b}\u{302}"],["\u{50}\u{31b}\u{302}","\u{50}\u{31b}\u{302}","\u{50}\u{31b}\u{302}","\u{50}\u{31b}\u{302}"],["\u{51}\u{31b}\u{302}","\u{51}\u{31b}\u{302}","\u{51}\u{31b}\u{302}","\u{51}\u{31b}\u{302}"],["\u{52}\u{31b}\u{302}","\u{52}\u{31b}\u{302}","\u{52}\u{31b}\u{302}","\u{52}\u{31b}\u{302}"],["\u{15c}\u{31b}","\u{53}\u{31b}\u{302}","\u{15c}\u{31b}","\u{53}\u{31b}\u{302}"],["\u{54}\u{31b}\u{302}","\u{54}\u{31b}\u{302}","\u{54}\u{31b}\u{302}","\u{54}\u{31b}\u{302}"],["\u{1af}\u{302}","\u{55}\u{31b}\u{302}","\u{1af}\u{302}","\u{55}\u{31b}\u{302}"],["\u{56}\u{31b}\u{302}","\u{56}\u{31b}\u{302}","\u{56}\u{31b}\u{302}","\u{56}\u{31b}\u{302}"],["\u{174}\u{31b}","\u{57}\u{31b}\u{302}","\u{174}\u{31b}","\u{57}\u{31b}\u{302}"],["\u{58}\u{31b}\u{302}","\u{58}\u{31b}\u{302}","\u{58}\u{31b}\u{302}","\u{58}\u{31b}\u{302}"],["\u{176}\u{31b}","\u{59}\u{31b}\u{302}","\u{176}\u{31b}","\u{59}\u{31b}\u{302}"],["\u{1e90}\u{31b}","\u{5a}\u{31b}\u{302}","\u{1e90}\u{31b}","\u{5a}\u{31b}\u{302}"],["\u{5b}\u{31b}\u{302}","\u{5b}\u{31b}\u{302}","\u{5b}\u{31b}\u{302}","\u{5b}\u{31b}\u{302}"],["\u{5c}\u{31b}\u{302}","\u{5c}\u{31b}\u{302}","\u{5c}\u{31b}\u{302}","\u{5c}\u{31b}\u{302}"],["\u{5d}\u{31b}\u{302}","\u{5d}\u{31b}\u{302}","\u{5d}\u{31b}\u{302}","\u{5d}\u{31b}\u{302}"],["\u{5e}\u{31b}\u{302}","\u{5e}\u{31b}\u{302}","\u{5e}\u{31b}\u{302}","\u{5e}\u{31b}\u{302}"],["\u{5f}\u{31b}\u{302}","\u{5f}\u{31b}\u{302}","\u{5f}\u{31b}\u{302}","\u{5f}\u{31b}\u{302}"],["\u{60}\u{31b}\u{302}","\u{60}\u{31b}\u{302}","\u{60}\u{31b}\u{302}","\u{60}\u{31b}\u{302}"],["\u{e2}\u{31b}","\u{61}\u{31b}\u{302}","\u{e2}\u{31b}","\u{61}\u{31b}\u{302}"],["\u{62}\u{31b}\u{302}","\u{62}\u{31b}\u{302}","\u{62}\u{31b}\u{302}","\u{62}\u{31b}\u{302}"],["\u{109}\u{31b}","\u{63}\u{31b}\u{302}","\u{109}\u{31b}","\u{63}\u{31b}\u{302}"],["\u{64}\u{31b}\u{302}","\u{64}\u{31b}\u{302}","\u{64}\u{31b}\u{302}","\u{64}\u{31b}\u{302}"],["\u{ea}\u{31b}","\u{65}\u{31b}\u{302}","\u{ea}\u{31b}","\u{65}\u{31b}\u{302}"],["\u{66}\u{31b}\u{302}","\u{66}\u{31b}\u{302}","\u{66}\u{31b}\u{302}","\u{66}\u{31b}\u{302}"],["\u{11d}\u{31b}","\u{67}\u{31b}\u{302}","\u{11d}\u{31b}","\u{67}\u{31b}\u{302}"],["\u{125}\u{31b}","\u{68}\u{31b}\u{302}","\u{125}\u{31b}","\u{68}\u{31b}\u{302}"],["\u{ee}\u{31b}","\u{69}\u{31b}\u{302}","\u{ee}\u{31b}","\u{69}\u{31b}\u{302}"],["\u{135}\u{31b}","\u{6a}\u{31b}\u{302}","\u{135}\u{31b}","\u{6a}\u{31b}\u{302}"],["\u{6b}\u{31b}\u{302}","\u{6b}\u{31b}\u{302}","\u{6b}\u{31b}\u{302}","\u{6b}\u{31b}\u{302}"],["\u{6c}\u{31b}\u{302}","\u{6c}\u{31b}\u{302}","\u{6c}\u{31b}\u{302}","\u{6c}\u{31b}\u{302}"],["\u{6d}\u{31b}\u{302}","\u{6d}\u{31b}\u{302}","\u{6d}\u{31b}\u{302}","\u{6d}\u{31b}\u{302}"],["\u{6e}\u{31b}\u{302}","\u{6e}\u{31b}\u{302}","\u{6e}\u{31b}\u{302}","\u{6e}\u{31b}\u{302}"],["\u{1a1}\u{302}","\u{6f}\u{31b}\u{302}","\u{1a1}\u{302}","\u{6f}\u{31b}\u{302}"],["\u{70}\u{31b}\u{302}","\u{70}\u{31b}\u{302}","\u{70}\u{31b}\u{302}","\u{70}\u{31b}\u{302}"],["\u{71}\u{31b}\u{302}","\u{71}\u{31b}\u{302}","\u{71}\u{31b}\u{302}","\u{71}\u{31b}\u{302}"],["\u{72}\u{31b}\u{302}","\u{72}\u{31b}\u{302}","\u{72}\u{31b}\u{302}","\u{72}\u{31b}\u{302}"],["\u{15d}\u{31b}","\u{73}\u{31b}\u{302}","\u{15d}\u{31b}","\u{73}\u{31b}\u{302}"],["\u{74}\u{31b}\u{302}","\u{74}\u{31b}\u{302}","\u{74}\u{31b}\u{302}","\u{74}\u{31b}\u{302}"],["\u{1b0}\u{302}","\u{75}\u{31b}\u{302}","\u{1b0}\u{302}","\u{75}\u{31b}\u{302}"],["\u{76}\u{31b}\u{302}","\u{76}\u{31b}\u{302}","\u{76}\u{31b}\u{302}","\u{76}\u{31b}\u{302}"],["\u{175}\u{31b}","\u{77}\u{31b}\u{302}","\u{175}\u{31b}","\u{77}\u{31b}\u{302}"],["\u{78}\u{31b}\u{302}","\u{78}\u{31b}\u{302}","\u{78}\u{31b}\u{302}","\u{78}\u{31b}\u{302}"],["\u{177}\u{31b}","\u{79}\u{31b}\u{302}","\u{177}\u{31b}","\u{79}\u{31b}\u{302}"],["\u{1e91}\u{31b}","\u{7a}\u{31b}\u{302}","\u{1e91}\u{31b}","\u{7a}\u{31b}\u{302}"]],
[["\u{c3}\u{31b}","\u{41}\u{31b}\u{303}","\u{c3}\u{31b}","\u{41}\u{31b}\u{303}"],["\u{42}\u{31b}\u{303}","\u{42}\u{31b}\u{303}","\u{42}\u{31b}\u{303}","\u{42}\u{31b}\u{303}"],["\u{43}\u{31b}\u{303}","\u{43}\u{31b}\u{303}","\u{43}\u{31b}\u{303}","\u{43}\u{31b}\u{303}"],["\u{44}\u{31b}\u{303}","\u{44}\u{31b}\u{303}","\u{44}\u{31b}\u{303}","\u{44}\u{31b}\u{303}"],["\u{1ebc}\u{31b}","\u{45}\u{31b}\u{303}","\u{1ebc}\u{31b}","\u{45}\u{31b}\u{303}"],["\u{46}\u{31b}\u{303}","\u{46}\u{31b}\u{303}","\u{46}\u{31b}\u{303}","\u{46}\u{31b}\u{303}"],["\u{47}\u{31b}\u{303}","\u{47}\u{31b}\u{303}","\u{47}\u{31b}\u{303}","\u{47}\u{31b}\u{303}"],["\u{48}\u{31b}\u{303}","\u{48}\u{31b}\u{303}","\u{48}\u{31b}\u{303}","\u{48}\u{31b}\u{303}"],["\u{128}\u{31b}","\u{49}\u{31b}\u{303}","\u{128}\u{31b}","\u{49}\u{31b}\u{303}"],["\u{4a}\u{31b}\u{303}","\u{4a}\u{31b}\u{303}","\u{4a}\u{31b}\u{303}","\u{4a}\u{31b}\u{303}"],["\u{4b}\u{31b}\u{303}","\u{4b}\u{31b}\u{303}","\u{4b}\u{31b}\u{303}","\u{4b}\u{31b}\u{303}"],["\u{4c}\u{31b}\u{303}","\u{4c}\u{31b}\u{303}","\u{4c}\u{31b}\u{303}","\u{4c}\u{31b}\u{303}"],["\u{4d}\u{31b}\u{303}","\u{4d}\u{31b}\u{303}","\u{4d}\u{31b}\u{303}","\u{4d}\u{31b}\u{303}"],["\u{d1}\u{31b}","\u{4e}\u{31b}\u{303}","\u{d1}\u{31b}","\u{4e}\u{31b}\u{303}"],["\u{1ee0}","\u{4f}\u{31b}\u{303}","\u{1ee0}","\u{4f}\u{31b}\u{303}"],["\u{50}\u{31b}\u{303}","\u{50}\u{31b}\u{303}","\u{50}\u{31b}\u{303}","\u{50}\u{31b}\u{303}"],["\u{51}\u{31b}\u{303}","\u{51}\u{31b}\u{303}","\u{51}\u{31b}\u{303}","\u{51}\u{31b}\u{303}"],["\u{52}\u{31b}\u{303}","\u{52}\u{31b}\u{303}","\u{52}\u{31b}\u{303}","\u{52}\u{31b}\u{303}"],["\u{53}\u{31b}\u{303}","\u{53}\u{31b}\u{303}","\u{53}\u{31b}\u{303}","\u{53}\u{31b}\u{303}"],["\u{54}\u{31b}\u{303}","\u{54}\u{31b}\u{303}","\u{54}\u{31b}\u{303}","\u{54}\u{31b}\u{303}"],["\u{1eee}","\u{55}\u{31b}\u{303}","\u{1eee}","\u{55}\u{31b}\u{303}"],["\u{1e7c}\u{31b}","\u{56}\u{31b}\u{303}","\u{1e7c}\u{31b}","\u{56}\u{31b}\u{303}"],["\u{57}\u{31b}\u{303}","\u{57}\u{31b}\u{303}","\u{57}\u{31b}\u{303}","\u{57}\u{31b}\u{303}"],["\u{58}\u{31b}\u{303}","\u{58}\u{31b}\u{303}","\u{58}\u{31b}\u{303}","\u{58}\u{31b}\u{303}"],["\u{1ef8}\u{31b}","\u{59}\u{31b}\u{303}","\u{1ef8}\u{31b}","\u{59}\u{31b}\u{303}"],["\u{5a}\u{31b}\u{303}","\u{5a}\u{31b}\u{303}","\u{5a}\u{31b}\u{303}","\u{5a}\u{31b}\u{303}"],["\u{5b}\u{31b}\u{303}","\u{5b}\u{31b}\u{303}","\u{5b}\u{31b}\u{303}","\u{5b}\u{31b}\u{303}"],["\u{5c}\u{31b}\u{303}","\u{5c}\u{31b}\u{303}","\u{5c}\u{31b}\u{303}","\u{5c}\u{31b}\u{303}"],["\u{5d}\u{31b}\u{303}","\u{5d}\u{31b}\u{303}","\u{5d}\u{31b}\u{303}","\u{5d}\u{31b}\u{303}"],["\u{5e}\u{31b}\u{303}","\u{5e}\u{31b}\u{303}","\u{5e}\u{31b}\u{303}","\u{5e}\u{31b}\u{303}"],["\u{5f}\u{31b}\u{303}","\u{5f}\u{31b}\u{303}","\u{5f}\u{31b}\u{303}","\u{5f}\u{31b}\u{303}"],["\u{60}\u{31b}\u{303}","\u{60}\u{31b}\u{303}","\u{60}\u{31b}\u{303}","\u{60}\u{31b}\u{303}"],["\u{e3}\u{31b}","\u{61}\u{31b}\u{303}","\u{e3}\u{31b}","\u{61}\u{31b}\u{303}"],["\u{62}\u{31b}\u{303}","\u{62}\u{31b}\u{303}","\u{62}\u{31b}\u{303}","\u{62}\u{31b}\u{303}"],["\u{63}\u{31b}\u{303}","\u{63}\u{31b}\u{303}","\u{63}\u{31b}\u{303}","\u{63}\u{31b}\u{303}"],["\u{64}\u{31b}\u{303}","\u{64}\u{31b}\u{303}","\u{64}\u{31b}\u{303}","\u{64}\u{31b}\u{303}"],["\u{1ebd}\u{31b}","\u{65}\u{31b}\u{303}","\u{1ebd}\u{31b}","\u{65}\u{31b}\u{303}"],["\u{66}\u{31b}\u{303}","\u{66}\u{31b}\u{303}","\u{66}\u{31b}\u{303}","\u{66}\u{31b}\u{303}"],["\u{67}\u{31b}\u{303}","\u{67}\u{31b}\u{303}","\u{67}\u{31b}\u{303}","\u{67}\u{31b}\u{303}"],["\u{68}\u{31b}\u{303}","\u{68}\u{31b}\u{303}","\u{68}\u{31b}\u{303}","\u{68}\u{31b}\u{303}"],["\u{129}\u{31b}","\u{69}\u{31b}\u{303}","\u{129}\u{31b}","\u{69}\u{31b}\u{303}"],["\u{6a}\u{31b}\u{303}","\u{6a}\u{31b}\u{303}","\u{6a}\u{31b}\u{303}","\u{6a}\u{31b}\u{303}"],["\u{6b}\u{31b}\u{303}","\u{6b}\u{31b}\u{303}","\u{6b}\u{31b}\u{303}","\u{6b}\u{31b}\u{303}"],["\u{6c}\u{31b}\u{303}","\u{6c}\u{31b}\u{303}","\u{6c}\u{31b}\u{303}","\u{6c}\u{31b}\u{303}"],["\u{6d}\u{31b}\u{303}","\u{6d}\u{31b}\u{303}","\u{6d}\u{31b}\u{303}","\u{6d}\u{31b}\u{303}"],["\u{f1}\u{31b}","\u{6e}\u{31b}\u{303}","\u{f1}\u{31b}","\u{6e}\u{31b}\u{303}"],["\u{1ee1}","\u{6f}\u{31b}\u{303}","\u{1ee1}","\u{6f}\u{31b}\u{303}"],["\u{70}\u{31b}\u{303}","\u{70}\u{31b}\u{303}","\u{70}\u{31b}\u{303}","\u{70}\u{31b}\u{303}"],["\u{71}\u{31b}\u{303}","\u{71}\u{31b}\u{303}","\u{71}\u{31b}\u{303}","\u{71}\u{31b}\u{303}"],["\u{72}\u{31b}\u{303}","\u{72}\u{31b}\u{303}","\u{72}\u{31b}\u{303}","\u{72}\u{31b}\u{303}"],["\u{73}\u{31b}\u{303}","\u{73}\u{31b}\u{303}","\u{73}\u{31b}\u{303}","\u{73}\u{31b}\u{303}"],["\u{74}\u{31b}\u{303}","\u{74}\u{31b}\u{303}","\u{74}\u{31b}\u{303}","\u{74}\u{31b}\u{303}"],["\u{1eef}","\u{75}\u{31b}\u{303}","\u{1eef}","\u{75}\u{31b}\u{303}"],["\u{1e7d}\u{31b}","\u{76}\u{31b}\u{303}","\u{1e7d}\u{31b}","\u{76}\u{31b}\u{303}"],["\u{77}\u{31b}\u{303}","\u{77}\u{31b}\u{303}","\u{77}\u{31b}\u{303}","\u{77}\u{31b}\u{303}"],["\u{78}\u{31b}\u{303}","\u{78}\u{31b}\u{303}","\u{78}\u{31b}\u{303}","\u{78}\u{31b}\u{303}"],["\u{1ef9}\u{31b}","\u{79}\u{31b}\u{303}","\u{1ef9}\u{31b}","\u{79}\u{31b}\u{303}"],["\u{7a}\u{31b}\u{303}","\u{7a}\u{31b}\u{303}","\u{7a}\u{31b}\u{303}","\u{7a}\u{31b}\u{303}"]],
[["\u{c4}\u{31b}","\u{41}\u{31b}\u{308}","\u{c4}\u{31b}","\u{41}\u{31b}\u{308}"],["\u{42}\u{31b}\u{308}","\u{42}\u{31b}\u{308}","\u{42}\u{31b}\u{308}","\u{42}\u{31b}\u{308}"],["\u{43}\u{31b}\u{308}","\u{43}\u{31b}\u{308}","\u{43}\u{31b}\u{308}","\u{43}\u{31b}\u{308}"],["\u{44}\u{31b}\u{308}","\u{44}\u{31b}\u{308}","\u{44}\u{31b}\u{308}","\u{44}\u{31b}\u{308}"],["\u{cb}\u{31b}","\u{45}\u{31b}\u{308}","\u{cb}\u{31b}","\u{45}\u{31b}\u{308}"],["\u{46}\u{31b}\u{308}","\u{46}\u{31b}\u{308}","\u{46}\u{31b}\u{308}","\u{46}\u{31b}\u{308}"],["\u{47}\u{31b}\u{308}","\u{47}\u{31b}\u{308}","\u{47}\u{31b}\u{308}","\u{47}\u{31b}\u{308}"],["\u{1e26}\u{31b}","\u{48}\u{31b}\u{308}","\u{1e26}\u{31b}","\u{48}\u{31b}\u{308}"],["\u{cf}\u{31b}","\u{49}\u{31b}\u{308}","\u{cf}\u{31b}","\u{49}\u{31b}\u{308}"],["\u{4a}\u{31b}\u{308}","\u{4a}\u{31b}\u{308}","\u{4a}\u{31b}\u{308}","\u{4a}\u{31b}\u{308}"],["\u{4b}\u{31b}\u{308}","\u{4b}\u{31b}\u{308}","\u{4b}\u{31b}\u{308}","\u{4b}\u{31b}\u{308}"],["\u{4c}\u{31b}\u{308}","\u{4c}\u{31b}\u{308}","\u{4c}\u{31b}\u{308}","\u{4c}\u{31b}\u{308}"],["\u{4d}\u{31b}\u{308}","\u{4d}\u{31b}\u{308}","\u{4d}\u{31b}\u{308}","\u{4d}\u{31b}\u{308}"],["\u{4e}\u{31b}\u{308}","\u{4e}\u{31b}\u{308}","\u{4e}\u{31b}\u{308}","\u{4e}\u{31b}\u{308}"],["\u{1a0}\u{308}","\u{4f}\u{31b}\u{308}","\u{1a0}\u{308}","\u{4f}\u{31b}\u{308}"],["\u{50}\u{31b}\u{308}","\u{50}\u{31b}\u{308}","\u{50}\u{31b}\u{308}","\u{50}\u{31b}\u{308}"],["\u{51}\u{31b}\u{308}","\u{51}\u{31b}\u{308}","\u{51}\u{31b}\u{308}","\u{51}\u{31b}\u{308}"],["\u{52}\u{31b}\u{308}","\u{52}\u{31b}\u{308}","\u{52}\u{31b}\u{308}","\u{52}\u{31b}\u{308}"],["\u{53}\u{31b}\u{308}","\u{53}\u{31b}\u{308}","\u{53}\u{31b}\u{308}","\u{53}\u{31b}\u{308}"],["\u{54}\u{31b}\u{308}","\u{54}\u{31b}\u{308}","\u{54}\u{31b}\u{308}","\u{54}\u{31b}\u{308}"],["\u{1af}\u{308}","\u{55}\u{31b}\u{308}","\u{1af}\u{308}","\u{55}\u{31b}\u{308}"],["\u{56}\u{31b}\u{308}","\u{56}\u{31b}\u{308}","\u{56}\u{31b}\u{308}","\u{56}\u{31b}\u{308}"],["\u{1e84}\u{31b}","\u{57}\u{31b}\u{308}","\u{1e84}\u{31b}","\u{57}\u{31b}\u{308}"],["\u{1e8c}\u{31b}","\u{58}\u{31b}\u{308}","\u{1e8c}\u{31b}","\u{58}\u{31b}\u{308}"],["\u{178}\u{31b}","\u{59}\u{31b}\u{308}","\u{178}\u{31b}","\u{59}\u{31b}\u{308}"],["\u{5a}\u{31b}\u{308}","\u{5a}\u{31b}\u{308}","\u{5a}\u{31b}\u{308}","\u{5a}\u{31b}\u{308}"],["\u{5b}\u{31b}\u{308}","\u{5b}\u{31b}\u{308}","\u{5b}\u{31b}\u{308}","\u{5b}\u{31b}\u{308}"],["\u{5c}\u{31b}\u{308}","\u{5c}\u{31b}\u{308}","\u{5c}\u{31b}\u{308}","\u{5c}\u{31b}\u{308}"],["\u{5d}\u{31b}\u{308}","\u{5d}\u{31b}\u{308}","\u{5d}\u{31b}\u{308}","\u{5d}\u{31b}\u{308}"],["\u{5e}\u{31b}\u{308}","\u{5e}\u{31b}\u{308}","\u{5e}\u{31b}\u{308}","\u{5e}\u{31b}\u{308}"],["\u{5f}\u{31b}\u{308}","\u{5f}\u{31b}\u{308}","\u{5f}\u{31b}\u{308}","\u{5f}\u{31b}\u{308}"],["\u{60}\u{31b}\u{308}","\u{60}\u{31b}\u{308}","\u{60}\u{31b}\u{308}","\u{60}\u{31b}\u{308}"],["\u{e4}\u{31b}","\u{61}\u{31b}\u{308}","\u{e4}\u{31b}","\u{61}\u{31b}\u{308}"],["\u{62}\u{31b}\u{308}","\u{62}\u{31b}\u{308}","\u{62}\u{31b}\u{308}","\u{62}\u{31b}\u{308}"],["\u{63}\u{31b}\u{308}","\u{63}\u{31b}\u{308}","\u{63}\u{31b}\u{308}","\u{63}\u{31b}\u{308}"],["\u{64}\u{31b}\u{308}","\u{64}\u{31b}\u{308}","\u{64}\u{31b}\u{308}","\u{64}\u{31b}\u{308}"],["\u{eb}\u{31b}","\u{65}\u{31b}\u{308}","\u{eb}\u{31b}","\u{65}\u{31b}\u{308}"],["\u{66}\u{31b}\u{308}","\u{66}\u{31b}\u{308}","\u{66}\u{31b}\u{308}","\u{66}\u{31b}\u{308}"],["\u{67}\u{31b}\u{308}","\u{67}\u{31b}\u{308}","\u{67}\u{31b}\u{308}","\u{67}\u{31b}\u{308}"],["\u{1e27}\u{31b}","\u{68}\u{31b}\u{308}","\u{1e27}\u{31b}","\u{68}\u{31b}\u{308}"],["\u{ef}\u{31b}","\u{69}\u{31b}\u{308}","\u{ef}\u{31b}","\u{69}\u{31b}\u{308}"],["\u{6a}\u{31b}\u{308}","\u{6a}\u{31b}\u{308}","\u{6a}\u{31b}\u{308}","\u{6a}\u{31b}\u{308}"],["\u{6b}\u{31b}\u{308}","\u{6b}\u{31b}\u{308}","\u{6b}\u{31b}\u{308}","\u{6b}\u{31b}\u{308}"],["\u{6c}\u{31b}\u{308}","\u{6c}\u{31b}\u{308}","\u{6c}\u{31b}\u{308}","\u{6c}\u{31b}\u{308}"],["\u{6d}\u{31b}\u{308}","\u{6d}\u{31b}\u{308}","\u{6d}\u{31b}\u{308}","\u{6d}\u{31b}\u{308}"],["\u{6e}\u{31b}\u{308}","\u{6e}\u{31b}\u{308}","\u{6e}\u{31b}\u{308}","\u{6e}\u{31b}\u{308}"],["\u{1a1}\u{308}","\u{6f}\u{31b}\u{308}","\u{1a1}\u{308}","\u{6f}\u{31b}\u{308}"],["\u{70}\u{31b}\u{308}","\u{70}\u{31b}\u{308}","\u{70}\u{31b}\u{308}","\u{70}\u{31b}\u{308}"],["\u{71}\u{31b}\u{308}","\u{71}\u{31b}\u{308}","\u{71}\u{31b}\u{308}","\u{71}\u{31b}\u{308}"],["\u{72}\u{31b}\u{308}","\u{72}\u{31b}\u{308}","\u{72}\u{31b}\u{308}","\u{72}\u{31b}\u{308}"],["\u{73}\u{31b}\u{308}","\u{73}\u{31b}\u{308}","\u{73}\u{31b}\u{308}","\u{73}\u{31b}\u{308}"],["\u{1e97}\u{31b}","\u{74}\u{31b}\u{308}","\u{1e97}\u{31b}","\u{74}\u{31b}\u{308}"],["\u{1b0}\u{308}","\u{75}\u{31b}\u{308}","\u{1b0}\u{308}","\u{75}\u{31b}\u{308}"],["\u{76}\u{31b}\u{308}","\u{76}\u{31b}\u{308}","\u{76}\u{31b}\u{308}","\u{76}\u{31b}\u{308}"],["\u{1e85}\u{31b}","\u{77}\u{31b}\u{308}","\u{1e85}\u{31b}","\u{77}\u{31b}\u{308}"],["\u{1e8d}\u{31b}","\u{78}\u{31b}\u{308}","\u{1e8d}\u{31b}","\u{78}\u{31b}\u{308}"],["\u{ff}\u{31b}","\u{79}\u{31b}\u{308}","\u{ff}\u{31b}","\u{79}\u{31b}\u{308}"],["\u{7a}\u{31b}\u{308}","\u{7a}\u{31b}\u{308}","\u{7a}\u{31b}\u{308}","\u{7a}\u{31b}\u{308}"]],
[["\u{1ea0}\u{31b}","\u{41}\u{31b}\u{323}","\u{1ea0}\u{31b}","\u{41}\u{31b}\u{323}"],["\u{1e04}\u{31b}","\u{42}\u{31b}\u{323}","\u{1e04}\u{31b}","\u{42}\u{31b}\u{323}"],["\u{43}\u{31b}\u{323}","\u{43}\u{31b}\u{323}","\u{43}\u{31b}\u{323}","\u{43}\u{31b}\u{323}"],["\u{1e0c}\u{31b}","\u{44}\u{31b}\u{323}","\u{1e0c}\u{31b}","\u{44}\u{31b}\u{323}"],["\u{1eb8}\u{31b}","\u{45}\u{31b}\u{323}","\u{1eb8}\u{31b}","\u{45}\u{31b}\u{323}"],["\u{46}\u{31b}\u{323}","\u{46}\u{31b}\u{323}","\u{46}\u{31b}\u{323}","\u{46}\u{31b}\u{323}"],["\u{47}\u{31b}\u{323}","\u{47}\u{31b}\u{323}","\u{47}\u{31b}\u{323}","\u{47}\u{31b}\u{323}"],["\u{1e24}\u{31b}","\u{48}\u{31b}\u{323}","\u{1e24}\u{31b}","\u{48}\u{31b}\u{323}"],["\u{1eca}\u{31b}","\u{49}\u{31b}\u{323}","\u{1eca}\u{31b}","\u{49}\u{31b}\u{323}"],["\u{4a}\u{31b}\u{323}","\u{4a}\u{31b}\u{323}","\u{4a}\u{31b}\u{323}","\u{4a}\u{31b}\u{323}"],["\u{1e32}\u{31b}","\u{4b}\u{31b}\u{323}","\u{1e32}\u{31b}","\u{4b}\u{31b}\u{323}"],["\u{1e36}\u{31b}","\u{4c}\u{31b}\u{323}","\u{1e36}\u{31b}","\u{4c}\u{31b}\u{323}"],["\u{1e42}\u{31b}","\u{4d}\u{31b}\u{323}","\u{1e42}\u{31b}","\u{4d}\u{31b}\u{323}"],["\u{1e46}\u{31b}","\u{4e}\u{31b}\u{323}","\u{1e46}\u{31b}","\u{4e}\u{31b}\u{323}"],["\u{1ee2}","\u{4f}\u{31b}\u{323}","\u{1ee2}","\u{4f}\u{31b}\u{323}"],["\u{50}\u{31b}\u{323}","\u{50}\u{31b}\u{323}","\u{50}\u{31b}\u{323}","\u{50}\u{31b}\u{323}"],["\u{51}\u{31b}\u{323}","\u{51}\u{31b}\u{323}","\u{51}\u{31b}\u{323}","\u{51}\u{31b}\u{323}"],["\u{1e5a}\u{31b}","\u{52}\u{31b}\u{323}","\u{1e5a}\u{31b}","\u{52}\u{31b}\u{323}"],["\u{1e62}\u{31b}","\u{53}\u{31b}\u{323}","\u{1e62}\u{31b}","\u{53}\u{31b}\u{323}"],["\u{1e6c}\u{31b}","\u{54}\u{31b}\u{323}","\u{1e6c}\u{31b}","\u{54}\u{31b}\u{323}"],["\u{1ef0}","\u{55}\u{31b}\u{323}","\u{1ef0}","\u{55}\u{31b}\u{323}"],["\u{1e7e}\u{31b}","\u{56}\u{31b}\u{323}","\u{1e7e}\u{31b}","\u{56}\u{31b}\u{323}"],["\u{1e88}\u{31b}","\u{57}\u{31b}\u{323}","\u{1e88}\u{31b}","\u{57}\u{31b}\u{323}"],["\u{58}\u{31b}\u{323}","\u{58}\u{31b}\u{323}","\u{58}\u{31b}\u{323}","\u{58}\u{31b}\u{323}"],["\u{1ef4}\u{31b}","\u{59}\u{31b}\u{323}","\u{1ef4}\u{31b}","\u{59}\u{31b}\u{323}"],["\u{1e92}\u{31b}","\u{5a}\u{31b}\u{323}","\u{1e92}\u{31b}","\u{5a}\u{31b}\u{323}"],["\u{5b}\u{31b}\u{323}","\u{5b}\u{31b}\u{323}","\u{5b}\u{31b}\u{323}","\u{5b}\u{31b}\u{323}"],["\u{5c}\u{31b}\u{323}","\u{5c}\u{31b}\u{323}","\u{5c}\u{31b}\u{323}","\u{5c}\u{31b}\u{323}"],["\u{5d}\u{31b}\u{323}","\u{5d}\u{31b}\u{323}","\u{5d}\u{31b}\u{323}","\u{5d}\u{31b}\u{323}"],["\u{5e}\u{31b}\u{323}","\u{5e}\u{31b}\u{323}","\u{5e}\u{31b}\u{323}","\u{5e}\u{31b}\u{323}"],["\u{5f}\u{31b}\u{323}","\u{5f}\u{31b}\u{323}","\u{5f}\u{31b}\u{323}","\u{5f}\u{31b}\u{323}"],["\u{60}\u{31b}\u{323}","\u{60}\u{31b}\u{323}","\u{60}\u{31b}\u{323}","\u{60}\u{31b}\u{323}"],["\u{1ea1}\u{31b}","\u{61}\u{31b}\u{323}","\u{1ea1}\u{31b}","\u{61}\u{31b}\u{323}"],["\u{1e05}\u{31b}","\u{62}\u{31b}\u{323}","\u{1e05}\u{31b}","\u{62}\u{31b}\u{323}"],["\u{63}\u{31b}\u{323}","\u{63}\u{31b}\u{323}","\u{63}\u{31b}\u{323}","\u{63}\u{31b}\u{323}"],["\u{1e0d}\u{31b}","\u{64}\u{31b}\u{323}","\u{1e0d}\u{31b}","\u{64}\u{31b}\u{323}"],["\u{1eb9}\u{31b}","\u{65}\u{31b}\u{323}","\u{1eb9}\u{31b}","\u{65}\u{31b}\u{323}"],["\u{66}\u{31b}\u{323}","\u{66}\u{31b}\u{323}","\u{66}\u{31b}\u{323}","\u{66}\u{31b}\u{323}"],["\u{67}\u{31b}\u{323}","\u{67}\u{31b}\u{323}","\u{67}\u{31b}\u{323}","\u{67}\u{31b}\u{323}"],["\u{1e25}\u{31b}","\u{68}\u{31b}\u{323}","\u{1e25}\u{31b}","\u{68}\u{31b}\u{323}"],["\u{1ecb}\u{31b}","\u{69}\u{31b}\u{323}","\u{1ecb}\u{31b}","\u{69}\u{31b}\u{323}"],["\u{6a}\u{31b}\u{323}","\u{6a}\u{31b}\u{323}","\u{6a}\u{31b}\u{323}","\u{6a}\u{31b}\u{323}"],["\u{1e33}\u{31b}","\u{6b}\u{31b}\u{323}","\u{1e33}\u{31b}","\u{6b}\u{31b}\u{323}"],["\u{1e37}\u{31b}","\u{6c}\u{31b}\u{323}","\u{1e37}\u{31b}","\u{6c}\u{31b}\u{323}"],["\u{1e43}\u{31b}","\u{6d}\u{31b}\u{323}","\u{1e43}\u{31b}","\u{6d}\u{31b}\u{323}"],["\u{1e47}\u{31b}","\u{6e}\u{31b}\u{323}","\u{1e47}\u{31b}","\u{6e}\u{31b}\u{323}"],["\u{1ee3}","\u{6f}\u{31b}\u{323}","\u{1ee3}","\u{6f}\u{31b}\u{323}"],["\u{70}\u{31b}\u{323}","\u{70}\u{31b}\u{323}","\u{70}\u{31b}\u{323}","\u{70}\u{31b}\u{323}"],["\u{71}\u{31b}\u{323}","\u{71}\u{31b}\u{323}","\u{71}\u{31b}\u{323}","\u{71}\u{31b}\u{323}"],["\u{1e5b}\u{31b}","\u{72}\u{31b}\u{323}","\u{1e5b}\u{31b}","\u{72}\u{31b}\u{323}"],["\u{1e63}\u{31b}","\u{73}\u{31b}\u{323}","\u{1e63}\u{31b}","\u{73}\u{31b}\u{323}"],["\u{1e6d}\u{31b}","\u{74}\u{31b}\u{323}","\u{1e6d}\u{31b}","\u{74}\u{31b}\u{323}"],["\u{1ef1}","\u{75}\u{31b}\u{323}","\u{1ef1}","\u{75}\u{31b}\u{323}"],["\u{1e7f}\u{31b}","\u{76}\u{31b}\u{323}","\u{1e7f}\u{31b}","\u{76}\u{31b}\u{323}"],["\u{1e89}\u{31b}","\u{77}\u{31b}\u{323}","\u{1e89}\u{31b}","\u{77}\u{31b}\u{323}"],["\u{78}\u{31b}\u{323}","\u{78}\u{31b}\u{323}","\u{78}\u{31b}\u{323}","\u{78}\u{31b}\u{323}"],["\u{1ef5}\u{31b}","\u{79}\u{31b}\u{323}","\u{1ef5}\u{31b}","\u{79}\u{31b}\u{323}"],["\u{1e93}\u{31b}","\u{7a}\u{31b}\u{323}","\u{1e93}\u{31b}","\u{7a}\u{31b}\u{323}"]],
[["\u{41}\u{327}\u{31b}","\u{41}\u{327}\u{31b}","\u{41}\u{327}\u{31b}","\u{41}\u{327}\u{31b}"],["\u{42}\u{327}\u{31b}","\u{42}\u{327}\u{31b}","\u{42}\u{327}\u{31b}","\u{42}\u{327}\u{31b}"],["\u{c7}\u{31b}","\u{43}\u{327}\u{31b}","\u{c7}\u{31b}","\u{43}\u{327}\u{31b}"],["\u{1e10}\u{31b}","\u{44}\u{327}\u{31b}","\u{1e10}\u{31b}","\u{44}\u{327}\u{31b}"],["\u{228}\u{31b}","\u{45}\u{327}\u{31b}","\u{228}\u{31b}","\u{45}\u{327}\u{31b}"],["\u{46}\u{327}\u{31b}","\u{46}\u{327}\u{31b}","\u{46}\u{327}\u{31b}","\u{46}\u{327}\u{31b}"],["\u{122}\u{31b}","\u{47}\u{327}\u{31b}","\u{122}\u{31b}","\u{47}\u{327}\u{31b}"],["\u{1e28}\u{31b}","\u{48}\u{327}\u{31b}","\u{1e28}\u{31b}","\u{48}\u{327}\u{31b}"],["\u{49}\u{327}\u{31b}","\u{49}\u{327}\u{31b}","\u{49}\u{327}\u{31b}","\u{49}\u{327}\u{31b}"],["\u{4a}\u{327}\u{31b}","\u{4a}\u{327}\u{31b}","\u{4a}\u{327}\u{31b}","\u{4a}\u{327}\u{31b}"],["\u{136}\u{31b}","\u{4b}\u{327}\u{31b}","\u{136}\u{31b}","\u{4b}\u{327}\u{31b}"],["\u{13b}\u{31b}","\u{4c}\u{327}\u{31b}","\u{13b}\u{31b}","\u{4c}\u{327}\u{31b}"],["\u{4d}\u{327}\u{31b}","\u{4d}\u{327}\u{31b}","\u{4d}\u{327}\u{31b}","\u{4d}\u{327}\u{31b}"],["\u{145}\u{31b}","\u{4e}\u{327}\u{31b}","\u{145}\u{31b}","\u{4e}\u{327}\u{31b}"],["\u{1a0}\u{327}","\u{4f}\u{327}\u{31b}","\u{1a0}\u{327}","\u{4f}\u{327}\u{31b}"],["\u{50}\u{327}\u{31b}","\u{50}\u{327}\u{31b}","\u{50}\u{327}\u{31b}","\u{50}\u{327}\u{31b}"],["\u{51}\u{327}\u{31b}","\u{51}\u{327}\u{31b}","\u{51}\u{327}\u{31b}","\u{51}\u{327}\u{31b}"],["\u{156}\u{31b}","\u{52}\u{327}\u{31b}","\u{156}\u{31b}","\u{52}\u{327}\u{31b}"],["\u{15e}\u{31b}","\u{53}\u{327}\u{31b}","\u{15e}\u{31b}","\u{53}\u{327}\u{31b}"],["\u{162}\u{31b}","\u{54}\u{327}\u{31b}","\u{162}\u{31b}","\u{54}\u{327}\u{31b}"],["\u{1af}\u{327}","\u{55}\u{327}\u{31b}","\u{1af}\u{327}","\u{55}\u{327}\u{31b}"],["\u{56}\u{327}\u{31b}","\u{56}\u{327}\u{31b}","\u{56}\u{327}\u{31b}","\u{56}\u{327}\u{31b}"],["\u{57}\u{327}\u{31b}","\u{57}\u{327}\u{31b}","\u{57}\u{327}\u{31b}","\u{57}\u{327}\u{31b}"],["\u{58}\u{327}\u{31b}","\u{58}\u{327}\u{31b}","\u{58}\u{327}\u{31b}","\u{58}\u{327}\u{31b}"],["\u{59}\u{327}\u{31b}","\u{59}\u{327}\u{31b}","\u{59}\u{327}\u{31b}","\u{59}\u{327}\u{31b}"],["\u{5a}\u{327}\u{31b}","\u{5a}\u{327}\u{31b}","\u{5a}\u{327}\u{31b}","\u{5a}\u{327}\u{31b}"],["\u{5b}\u{327}\u{31b}","\u{5b}\u{327}\u{31b}","\u{5b}\u{327}\u{31b}","\u{5b}\u{327}\u{31b}"],["\u{5c}\u{327}\u{31b}","\u{5c}\u{327}\u{31b}","\u{5c}\u{327}\u{31b}","\u{5c}\u{327}\u{31b}"],["\u{5d}\u{327}\u{31b}","\u{5d}\u{327}\u{31b}","\u{5d}\u{327}\u{31b}","\u{5d}\u{327}\u{31b}"],["\u{5e}\u{327}\u{31b}","\u{5e}\u{327}\u{31b}","\u{5e}\u{327}\u{31b}","\u{5e}\u{327}\u{31b}"],["\u{5f}\u{327}\u{31b}","\u{5f}\u{327}\u{31b}","\u{5f}\u{327}\u{31b}","\u{5f}\u{327}\u{31b}"],["\u{60}\u{327}\u{31b}","\u{60}\u{327}\u{31b}","\u{60}\u{327}\u{31b}","\u{60}\u{327}\u{31b}"],["\u{61}\u{327}\u{31b}","\u{61}\u{327}\u{31b}","\u{61}\u{327}\u{31b}","\u{61}\u{327}\u{31b}"],["\u{62}\u{327}\u{31b}","\u{62}\u{327}\u{31b}","\u{62}\u{327}\u{31b}","\u{62}\u{327}\u{31b}"],["\u{e7}\u{31b}","\u{63}\u{327}\u{31b}","\u{e7}\u{31b}","\u{63}\u{327}\u{31b}"],["\u{1e11}\u{31b}","\u{64}\u{327}\u{31b}","\u{1e11}\u{31b}","\u{64}\u{327}\u{31b}"],["\u{229}\u{31b}","\u{65}\u{327}\u{31b}","\u{229}\u{31b}","\u{65}\u{327}\u{31b}"],["\u{66}\u{327}\u{31b}","\u{66}\u{327}\u{31b}","\u{66}\u{327}\u{31b}","\u{66}\u{327}\u{31b}"],["\u{123}\u{31b}","\u{67}\u{327}\u{31b}","\u{123}\u{31b}","\u{67}\u{327}\u{31b}"],["\u{1e29}\u{31b}","\u{68}\u{327}\u{31b}","\u{1e29}\u{31b}","\u{68}\u{327}\u{31b}"],["\u{69}\u{327}\u{31b}","\u{69}\u{327}\u{31b}","\u{69}\u{327}\u{31b}","\u{69}\u{327}\u{31b}"],["\u{6a}\u{327}\u{31b}","\u{6a}\u{327}\u{31b}","\u{6a}\u{327}\u{31b}","\u{6a}\u{327}\u{31b}"],["\u{137}\u{31b}","\u{6b}\u{327}\u{31b}","\u{137}\u{31b}","\u{6b}\u{327}\u{31b}"],["\u{13c}\u{31b}","\u{6c}\u{327}\u{31b}","\u{13c}\u{31b}","\u{6c}\u{327}\u{31b}"],["\u{6d}\u{327}\u{31b}","\u{6d}\u{327}\u{31b}","\u{6d}\u{327}\u{31b}","\u{6d}\u{327}\u{31b}"],["\u{146}\u{31b}","\u{6e}\u{327}\u{31b}","\u{146}\u{31b}","\u{6e}\u{327}\u{31b}"],["\u{1a1}\u{327}","\u{6f}\u{327}\u{31b}","\u{1a1}\u{327}","\u{6f}\u{327}\u{31b}"],["\u{70}\u{327}\u{31b}","\u{70}\u{327}\u{31b}","\u{70}\u{327}\u{31b}","\u{70}\u{327}\u{31b}"],["\u{71}\u{327}\u{31b}","\u{71}\u{327}\u{31b}","\u{71}\u{327}\u{31b}","\u{71}\u{327}\u{31b}"],["\u{157}\u{31b}","\u{72}\u{327}\u{31b}","\u{157}\u{31b}","\u{72}\u{327}\u{31b}"],["\u{15f}\u{31b}","\u{73}\u{327}\u{31b}","\u{15f}\u{31b}","\u{73}\u{327}\u{31b}"],["\u{163}\u{31b}","\u{74}\u{327}\u{31b}","\u{163}\u{31b}","\u{74}\u{327}\u{31b}"],["\u{1b0}\u{327}","\u{75}\u{327}\u{31b}","\u{1b0}\u{327}","\u{75}\u{327}\u{31b}"],["\u{76}\u{327}\u{31b}","\u{76}\u{327}\u{31b}","\u{76}\u{327}\u{31b}","\u{76}\u{327}\u{31b}"],["\u{77}\u{327}\u{31b}","\u{77}\u{327}\u{31b}","\u{77}\u{327}\u{31b}","\u{77}\u{327}\u{31b}"],["\u{78}\u{327}\u{31b}","\u{78}\u{327}\u{31b}","\u{78}\u{327}\u{31b}","\u{78}\u{327}\u{31b}"],["\u{79}\u{327}\u{31b}","\u{79}\u{327}\u{31b}","\u{79}\u{327}\u{31b}","\u{79}\u{327}\u{31b}"],["\u{7a}\u{327}\u{31b}","\u{7a}\u{327}\u{31b}","\u{7a}\u{327}\u{31b}","\u{7a}\u{327}\u{31b}"]],
[["\u{41}\u{31b}\u{31b}","\u{41}\u{31b}\u{31b}","\u{41}\u{31b}\u{31b}","\u{41}\u{31b}\u{31b}"],["\u{42}\u{31b}\u{31b}","\u{42}\u{31b}\u{31b}","\u{42}\u{31b}\u{31b}","\u{42}\u{31b}\u{31b}"],["\u{43}\u{31b}\u{31b}","\u{43}\u{31b}\u{31b}","\u{43}\u{31b}\u{31b}","\u{43}\u{31b}\u{31b}"],["\u{44}\u{31b}\u{31b}","\u{44}\u{31b}\u{31b}","\u{44}\u{31b}\u{31b}","\u{44}\u{31b}\u{31b}"],["\u{45}\u{31b}\u{31b}","\u{45}\u{31b}\u{31b}","\u{45}\u{31b}\u{31b}","\u{45}\u{31b}\u{31b}"],["\u{46}\u{31b}\u{31b}","\u{46}\u{31b}\u{31b}","\u{46}\u{31b}\u{31b}","\u{46}\u{31b}\u{31b}"],["\u{47}\u{31b}\u{31b}","\u{47}\u{31b}\u{31b}","\u{47}\u{31b}\u{31b}","\u{47}\u{31b}\u{31b}"],["\u{48}\u{31b}\u{31b}","\u{48}\u{31b}\u{31b}","\u{48}\u{31b}\u{31b}","\u{48}\u{31b}\u{31b}"],["\u{49}\u{31b}\u{31b}","\u{49}\u{31b}\u{31b}","\u{49}\u{31b}\u{31b}","\u{49}\u{31b}\u{31b}"],["\u{4a}\u{31b}\u{31b}","\u{4a}\u{31b}\u{31b}","\u{4a}\u{31b}\u{31b}","\u{4a}\u{31b}\u{31b}"],["\u{4b}\u{31b}\u{31b}","\u{4b}\u{31b}\u{31b}","\u{4b}\u{31b}\u{31b}","\u{4b}\u{31b}\u{31b}"],["\u{4c}\u{31b}\u{31b}","\u{4c}\u{31b}\u{31b}","\u{4c}\u{31b}\u{31b}","\u{4c}\u{31b}\u{31b}"],["\u{4d}\u{31b}\u{31b}","\u{4d}\u{31b}\u{31b}","\u{4d}\u{31b}\u{31b}","\u{4d}\u{31b}\u{31b}"],["\u{4e}\u{31b}\u{31b}","\u{4e}\u{31b}\u{31b}","\u{4e}\u{31b}\u{31b}","\u{4e}\u{31b}\u{31b}"],["\u{1a0}\u{31b}","\u{4f}\u{31b}\u{31b}","\u{1a0}\u{31b}","\u{4f}\u{31b}\u{31b}"],["\u{50}\u{31b}\u{31b}","\u{50}\u{31b}\u{31b}","\u{50}\u{31b}\u{31b}","\u{50}\u{31b}\u{31b}"],["\u{51}\u{31b}\u{31b}","\u{51}\u{31b}\u{31b}","\u{51}\u{31b}\u{31b}","\u{51}\u{31b}\u{31b}"],["\u{52}\u{31b}\u{31b}","\u{52}\u{31b}\u{31b}","\u{52}\u{31b}\u{31b}","\u{52}\u{31b}\u{31b}"],["\u{53}\u{31b}\u{31b}","\u{53}\u{31b}\u{31b}","\u{53}\u{31b}\u{31b}","\u{53}\u{31b}\u{31b}"],["\u{54}\u{31b}\u{31b}","\u{54}\u{31b}\u{31b}","\u{54}\u{31b}\u{31b}","\u{54}\u{31b}\u{31b}"],["\u{1af}\u{31b}","\u{55}\u{31b}\u{31b}","\u{1af}\u{31b}","\u{55}\u{31b}\u{31b}"],["\u{56}\u{31b}\u{31b}","\u{56}\u{31b}\u{31b}","\u{56}\u{31b}\u{31b}","\u{56}\u{31b}\u{31b}"],["\u{57}\u{31b}\u{31b}","\u{57}\u{31b}\u{31b}","\u{57}\u{31b}\u{31b}","\u{57}\u{31b}\u{31b}"],["\u{58}\u{31b}\u{31b}","\u{58}\u{31b}\u{31b}","\u{58}\u{31b}\u{31b}","\u{58}\u{31b}\u{31b}"],["\u{59}\u{31b}\u{31b}","\u{59}\u{31b}\u{31b}","\u{59}\u{31b}\u{31b}","\u{59}\u{31b}\u{31b}"],["\u{5a}\u{31b}\u{31b}","\u{5a}\u{31b}\u{31b}","\u{5a}\u{31b}\u{31b}","\u{5a}\u{31b}\u{31b}"],["\u{5b}\u{31b}\u{31b}","\u{5b}\u{31b}\u{31b}","\u{5b}\u{31b}\u{31b}","\u{5b}\u{31b}\u{31b}"],["\u{5c}\u{31b}\u{31b}","\u{5c}\u{31b}\u{31b}","\u{5c}\u{31b}\u{31b}","\u{5c}\u{31b}\u{31b}"],["\u{5d}\u{31b}\u{31b}","\u{5d}\u{31b}\u{31b}","\u{5d}\u{31b}\u{31b}","\u{5d}\u{31b}\u{31b}"],["\u{5e}\u{31b}\u{31b}","\u{5e}\u{31b}\u{31b}","\u{5e}\u{31b}\u{31b}","\u{5e}\u{31b}\u{31b}"],["\u{5f}\u{31b}\u{31b}","\u{5f}\u{31b}\u{31b}","\u{5f}\u{31b}\u{31b}","\u{5f}\u{31b}\u{31b}"],["\u{60}\u{31b}\u{31b}","\u{60}\u{31b}\u{31b}","\u{60}\u{31b}\u{31b}","\u{60}\u{31b}\u{31b}"],["\u{61}\u{31b}\u{31b}","\u{61}\u{31b}\u{31b}","\u{61}\u{31b}\u{31b}","\u{61}\u{31b}\u{31b}"],["\u{62}\u{31b}\u{31b}","\u{62}\u{31b}\u{31b}","\u{62}\u{31b}\u{31b}","\u{62}\u{31b}\u{31b}"],["\u{63}\u{31b}\u{31b}","\u{63}\u{31b}\u{31b}","\u{63}\u{31b}\u{31b}","\u{63}\u{31b}\u{31b}"],["\u{64}\u{31b}\u{31b}","\u{64}\u{31b}\u{31b}","\u{64}\u{31b}\u{31b}","\u{64}\u{31b}\u{31b}"],["\u{65}\u{31b}\u{31b}","\u{65}\u{31b}\u{31b}","\u{65}\u{31b}\u{31b}","\u{65}\u{31b}\u{31b}"],["\u{66}\u{31b}\u{31b}","\u{66}\u{31b}\u{31b}","\u{66}\u{31b}\u{31b}","\u{66}\u{31b}\u{31b}"],["\u{67}\u{31b}\u{31b}","\u{67}\u{31b}\u{31b}","\u{67}\u{31b}\u{31b}","\u{67}\u{31b}\u{31b}"],["\u{68}\u{31b}\u{31b}","\u{68}\u{31b}\u{31b}","\u{68}\u{31b}\u{31b}","\u{68}\u{31b}\u{31b}"],["\u{69}\u{31b}\u{31b}","\u{69}\u{31b}\u{31b}","\u{69}\u{31b}\u{31b}","\u{69}\u{31b}\u{31b}"],["\u{6a}\u{31b}\u{31b}","\u{6a}\u{31b}\u{31b}","\u{6a}\u{31b}\u{31b}","\u{6a}\u{31b}\u{31b}"],["\u{6b}\u{31b}\u{31b}","\u{6b}\u{31b}\u{31b}","\u{6b}\u{31b}\u{31b}","\u{6b}\u{31b}\u{31b}"],["\u{6c}\u{31b}\u{31b}","\u{6c}\u{31b}\u{31b}","\u{6c}\u{31b}\u{31b}","\u{6c}\u{31b}\u{31b}"],["\u{6d}\u{31b}\u{31b}","\u{6d}\u{31b}\u{31b}","\u{6d}\u{31b}\u{31b}","\u{6d}\u{31b}\u{31b}"],["\u{6e}\u{31b}\u{31b}","\u{6e}\u{31b}\u{31b}","\u{6e}\u{31b}\u{31b}","\u{6e}\u{31b}\u{31b}"],["\u{1a1}\u{31b}","\u{6f}\u{31b}\u{31b}","\u{1a1}\u{31b}","\u{6f}\u{31b}\u{31b}"],["\u{70}\u{31b}\u{31b}","\u{70}\u{31b}\u{31b}","\u{70}\u{31b}\u{31b}","\u{70}\u{31b}\u{31b}"],["\u{71}\u{31b}\u{31b}","\u{71}\u{31b}\u{31b}","\u{71}\u{31b}\u{31b}","\u{71}\u{31b}\u{31b}"],["\u{72}\u{31b}\u{31b}","\u{72}\u{31b}\u{31b}","\u{72}\u{31b}\u{31b}","\u{72}\u{31b}\u{31b}"],["\u{73}\u{31b}\u{31b}","\u{73}\u{31b}\u{31b}","\u{73}\u{31b}\u{31b}","\u{73}\u{31b}\u{31b}"],["\u{74}\u{31b}\u{31b}","\u{74}\u{31b}\u{31b}","\u{74}\u{31b}\u{31b}","\u{74}\u{31b}\u{31b}"],["\u{1b0}\u{31b}","\u{75}\u{31b}\u{31b}","\u{1b0}\u{31b}","\u{75}\u{31b}\u{31b}"],["\u{76}\u{31b}\u{31b}","\u{76}\u{31b}\u{31b}","\u{76}\u{31b}\u{31b}","\u{76}\u{31b}\u{31b}"],["\u{77}\u{31b}\u{31b}","\u{77}\u{31b}\u{31b}","\u{77}\u{31b}\u{31b}","\u{77}\u{31b}\u{31b}"],["\u{78}\u{31b}\u{31b}","\u{78}\u{31b}\u{31b}","\u{78}\u{31b}\u{31b}","\u{78}\u{31b}\u{31b}"],["\u{79}\u{31b}\u{31b}","\u{79}\u{31b}\u{31b}","\u{79}\u{31b}\u{31b}","\u{79}\u{31b}\u{31b}"],["\u{7a}\u{31b}\u{31b}","\u{7a}\u{31b}\u{31b}","\u{7a}\u{31b}\u{31b}","\u{7a}\u{31b}\u{31b}"]],
[["\u{41}\u{31b}\u{345}","\u{41}\u{31b}\u{345}","\u{41}\u{31b}\u{345}","\u{41}\u{31b}\u{345}"],["\u{42}\u{31b}\u{345}","\u{42}\u{31b}\u{345}","\u{42}\u{31b}\u{345}","\u{42}\u{31b}\u{345}"],["\u{43}\u{31b}\u{345}","\u{43}\u{31b}\u{345}","\u{43}\u{31b}\u{345}","\u{43}\u{31b}\u{345}"],["\u{44}\u{31b}\u{345}","\u{44}\u{31b}\u{345}","\u{44}\u{31b}\u{345}","\u{44}\u{31b}\u{345}"],["\u{45}\u{31b}\u{345}","\u{45}\u{31b}\u{345}","\u{45}\u{31b}\u{345}","\u{45}\u{31b}\u{345}"],["\u{46}\u{31b}\u{345}","\u{46}\u{31b}\u{345}","\u{46}\u{31b}\u{345}","\u{46}\u{31b}\u{345}"],["\u{47}\u{31b}\u{345}","\u{47}\u{31b}\u{345}","\u{47}\u{31b}\u{345}","\u{47}\u{31b}\u{345}"],["\u{48}\u{31b}\u{345}","\u{48}\u{31b}\u{345}","\u{48}\u{31b}\u{345}","\u{48}\u{31b}\u{345}"],["\u{49}\u{31b}\u{345}","\u{49}\u{31b}\u{345}","\u{49}\u{31b}\u{345}","\u{49}\u{31b}\u{345}"],["\u{4a}\u{31b}\u{345}","\u{4a}\u{31b}\u{345}","\u{4a}\u{31b}\u{345}","\u{4a}\u{31b}\u{345}"],["\u{4b}\u{31b}\u{345}","\u{4b}\u{31b}\u{345}","\u{4b}\u{31b}\u{345}","\u{4b}\u{31b}\u{345}"],["\u{4c}\u{31b}\u{345}","\u{4c}\u{31b}\u{345}","\u{4c}\u{31b}\u{345}","\u{4c}\u{31b}\u{345}"],["\u{4d}\u{31b}\u{345}","\u{4d}\u{31b}\u{345}","\u{4d}\u{31b}\u{345}","\u{4d}\u{31b}\u{345}"],["\u{4e}\u{31b}\u{345}","\u{4e}\u{31b}\u{345}","\u{4e}\u{31b}\u{345}","\u{4e}\u{31b}\u{345}"],["\u{1a0}\u{345}","\u{4f}\u{31b}\u{345}","\u{1a0}\u{345}","\u{4f}\u{31b}\u{345}"],["\u{50}\u{31b}\u{345}","\u{50}\u{31b}\u{345}","\u{50}\u{31b}\u{345}","\u{50}\u{31b}\u{345}"],["\u{51}\u{31b}\u{345}","\u{51}\u{31b}\u{345}","\u{51}\u{31b}\u{345}","\u{51}\u{31b}\u{345}"],["\u{52}\u{31b}\u{345}","\u{52}\u{31b}\u{345}","\u{52}\u{31b}\u{345}","\u{52}\u{31b}\u{345}"],["\u{53}\u{31b}\u{345}","\u{53}\u{31b}\u{345}","\u{53}\u{31b}\u{345}","\u{53}\u{31b}\u{345}"],["\u{54}\u{31b}\u{345}","\u{54}\u{31b}\u{345}","\u{54}\u{31b}\u{345}","\u{54}\u{31b}\u{345}"],["\u{1af}\u{345}","\u{55}\u{31b}\u{345}","\u{1af}\u{345}","\u{55}\u{31b}\u{345}"],["\u{56}\u{31b}\u{345}","\u{56}\u{31b}\u{345}","\u{56}\u{31b}\u{345}","\u{56}\u{31b}\u{345}"],["\u{57}\u{31b}\u{345}","\u{57}\u{31b}\u{345}","\u{57}\u{31b}\u{345}","\u{57}\u{31b}\u{345}"],["\u{58}\u{31b}\u{345}","\u{58}\u{31b}\u{345}","\u{58}\u{31b}\u{345}","\u{58}\u{31b}\u{345}"],["\u{59}\u{31b}\u{345}","\u{59}\u{31b}\u{345}","\u{59}\u{31b}\u{345}","\u{59}\u{31b}\u{345}"],["\u{5a}\u{31b}\u{345}","\u{5a}\u{31b}\u{345}","\u{5a}\u{31b}\u{345}","\u{5a}\u{31b}\u{345}"],["\u{5b}\u{31b}\u{345}","\u{5b}\u{31b}\u{345}","\u{5b}\u{31b}\u{345}","\u{5b}\u{31b}\u{345}"],["\u{5c}\u{31b}\u{345}","\u{5c}\u{31b}\u{345}","\u{5c}\u{31b}\u{345}","\u{5c}\u{31b}\u{345}"],["\u{5d}\u{31b}\u{345}","\u{5d}\u{31b}\u{345}","\u{5d}\u{31b}\u{345}","\u{5d}\u{31b}\u{345}"],["\u{5e}\u{31b}\u{345}","\u{5e}\u{31b}\u{345}","\u{5e}\u{31b}\u{345}","\u{5e}\u{31b}\u{345}"],["\u{5f}\u{31b}\u{345}","\u{5f}\u{31b}\u{345}","\u{5f}\u{31b}\u{345}","\u{5f}\u{31b}\u{345}"],["\u{60}\u{31b}\u{345}","\u{60}\u{31b}\u{345}","\u{60}\u{31b}\u{345}","\u{60}\u{31b}\u{345}"],["\u{61}\u{31b}\u{345}","\u{61}\u{31b}\u{345}","\u{61}\u{31b}\u{345}","\u{61}\u{31b}\u{345}"],["\u{62}\u{31b}\u{345}","\u{62}\u{31b}\u{345}","\u{62}\u{31b}\u{345}","\u{62}\u{31b}\u{345}"],["\u{63}\u{31b}\u{345}","\u{63}\u{31b}\u{345}","\u{63}\u{31b}\u{345}","\u{63}\u{31b}\u{345}"],["\u{64}\u{31b}\u{345}","\u{64}\u{31b}\u{345}","\u{64}\u{31b}\u{345}","\u{64}\u{31b}\u{345}"],["\u{65}\u{31b}\u{345}","\u{65}\u{31b}\u{345}","\u{65}\u{31b}\u{345}","\u{65}\u{31b}\u{345}"],["\u{66}\u{31b}\u{345}","\u{66}\u{31b}\u{345}","\u{66}\u{31b}\u{345}","\u{66}\u{31b}\u{345}"],["\u{67}\u{31b}\u{345}","\u{67}\u{31b}\u{345}","\u{67}\u{31b}\u{345}","\u{67}\u{31b}\u{345}"],["\u{68}\u{31b}\u{345}","\u{68}\u{31b}\u{345}","\u{68}\u{31b}\u{345}","\u{68}\u{31b}\u{345}"],["\u{69}\u{31b}\u{345}","\u{69}\u{31b}\u{345}","\u{69}\u{31b}\u{345}","\u{69}\u{31b}\u{345}"],["\u{6a}\u{31b}\u{345}","\u{6a}\u{31b}\u{345}","\u{6a}\u{31b}\u{345}","\u{6a}\u{31b}\u{345}"],["\u{6b}\u{31b}\u{345}","\u{6b}\u{31b}\u{345}","\u{6b}\u{31b}\u{345}","\u{6b}\u{31b}\u{345}"],["\u{6c}\u{31b}\u{345}","\u{6c}\u{31b}\u{345}","\u{6c}\u{31b}\u{345}","\u{6c}\u{31b}\u{345}"],["\u{6d}\u{31b}\u{345}","\u{6d}\u{31b}\u{345}","\u{6d}\u{31b}\u{345}","\u{6d}\u{31b}\u{345}"],["\u{6e}\u{31b}\u{345}","\u{6e}\u{31b}\u{345}","\u{6e}\u{31b}\u{345}","\u{6e}\u{31b}\u{345}"],["\u{1a1}\u{345}","\u{6f}\u{31b}\u{345}","\u{1a1}\u{345}","\u{6f}\u{31b}\u{345}"],["\u{70}\u{31b}\u{345}","\u{70}\u{31b}\u{345}","\u{70}\u{31b}\u{345}","\u{70}\u{31b}\u{345}"],["\u{71}\u{31b}\u{345}","\u{71}\u{31b}\u{345}","\u{71}\u{31b}\u{345}","\u{71}\u{31b}\u{345}"],["\u{72}\u{31b}\u{345}","\u{72}\u{31b}\u{345}","\u{72}\u{31b}\u{345}","\u{72}\u{31b}\u{345}"],["\u{73}\u{31b}\u{345}","\u{73}\u{31b}\u{345}","\u{73}\u{31b}\u{345}","\u{73}\u{31b}\u{345}"],["\u{74}\u{31b}\u{345}","\u{74}\u{31b}\u{345}","\u{74}\u{31b}\u{345}","\u{74}\u{31b}\u{345}"],["\u{1b0}\u{345}","\u{75}\u{31b}\u{345}","\u{1b0}\u{345}","\u{75}\u{31b}\u{345}"],["\u{76}\u{31b}\u{345}","\u{76}\u{31b}\u{345}","\u{76}\u{31b}\u{345}","\u{76}\u{31b}\u{345}"],["\u{77}\u{31b}\u{345}","\u{77}\u{31b}\u{345}","\u{77}\u{31b}\u{345}","\u{77}\u{31b}\u{345}"],["\u{78}\u{31b}\u{345}","\u{78}\u{31b}\u{345}","\u{78}\u{31b}\u{345}","\u{78}\u{31b}\u{345}"],["\u{79}\u{31b}\u{345}","\u{79}\u{31b}\u{345}","\u{79}\u{31b}\u{345}","\u{79}\u{31b}\u{345}"],["\u{7a}\u{31b}\u{345}","\u{7a}\u{31b}\u{345}","\u{7a}\u{31b}\u{345}","\u{7a}\u{31b}\u{345}"]],
[["\u{41}\u{20d2}\u{31b}","\u{41}\u{20d2}\u{31b}","\u{41}\u{20d2}\u{31b}","\u{41}\u{20d2}\u{31b}"],["\u{42}\u{20d2}\u{31b}","\u{42}\u{20d2}\u{31b}","\u{42}\u{20d2}\u{31b}","\u{42}\u{20d2}\u{31b}"],["\u{43}\u{20d2}\u{31b}","\u{43}\u{20d2}\u{31b}","\u{43}\u{20d2}\u{31b}","\u{43}\u{20d2}\u{31b}"],["\u{44}\u{20d2}\u{31b}","\u{44}\u{20d2}\u{31b}","\u{44}\u{20d2}\u{31b}","\u{44}\u{20d2}\u{31b}"],["\u{45}\u{20d2}\u{31b}","\u{45}\u{20d2}\u{31b}","\u{45}\u{20d2}\u{31b}","\u{45}\u{20d2}\u{31b}"],["\u{46}\u{20d2}\u{31b}","\u{46}\u{20d2}\u{31b}","\u{46}\u{20d2}\u{31b}","\u{46}\u{20d2}\u{31b}"],["\u{47}\u{20d2}\u{31b}","\u{47}\u{20d2}\u{31b}","\u{47}\u{20d2}\u{31b}","\u{47}\u{20d2}\u{31b}"],["\u{48}\u{20d2}\u{31b}","\u{48}\u{20d2}\u{31b}","\u{48}\u{20d2}\u{31b}","\u{48}\u{20d2}\u{31b}"],["\u{49}\u{20d2}\u{31b}","\u{49}\u{20d2}\u{31b}","\u{49}\u{20d2}\u{31b}","\u{49}\u{20d2}\u{31b}"],["\u{4a}\u{20d2}\u{31b}","\u{4a}\u{20d2}\u{31b}","\u{4a}\u{20d2}\u{31b}","\u{4a}\u{20d2}\u{31b}"],["\u{4b}\u{20d2}\u{31b}","\u{4b}\u{20d2}\u{31b}","\u{4b}\u{20d2}\u{31b}","\u{4b}\u{20d2}\u{31b}"],["\u{4c}\u{20d2}\u{31b}","\u{4c}\u{20d2}\u{31b}","\u{4c}\u{20d2}\u{31b}","\u{4c}\u{20d2}\u{31b}"],["\u{4d}\u{20d2}\u{31b}","\u{4d}\u{20d2}\u{31b}","\u{4d}\u{20d2}\u{31b}","\u{4d}\u{20d2}\u{31b}"],["\u{4e}\u{20d2}\u{31b}","\u{4e}\u{20d2}\u{31b}","\u{4e}\u{20d2}\u{31b}","\u{4e}\u{20d2}\u{31b}"],["\u{1a0}\u{20d2}","\u{4f}\u{20d2}\u{31b}","\u{1a0}\u{20d2}","\u{4f}\u{20d2}\u{31b}"],["\u{50}\u{20d2}\u{31b}","\u{50}\u{20d2}\u{31b}","\u{50}\u{20d2}\u{31b}","\u{50}\u{20d2}\u{31b}"],["\u{51}\u{20d2}\u{31b}","\u{51}\u{20d2}\u{31b}","\u{51}\u{20d2}\u{31b}","\u{51}\u{20d2}\u{31b}"],["\u{52}\u{20d2}\u{31b}","\u{52}\u{20d2}\u{31b}","\u{52}\u{20d2}\u{31b}","\u{52}\u{20d2}\u{31b}"],["\u{53}\u{20d2}\u{31b}","\u{53}\u{20d2}\u{31b}","\u{53}\u{20d2}\u{31b}","\u{53}\u{20d2}\u{31b}"],["\u{54}\u{20d2}\u{31b}","\u{54}\u{20d2}\u{31b}","\u{54}\u{20d2}\u{31b}","\u{54}\u{20d2}\u{31b}"],["\u{1af}\u{20d2}","\u{55}\u{20d2}\u{31b}","\u{1af}\u{20d2}","\u{55}\u{20d2}\u{31b}"],["\u{56}\u{20d2}\u{31b}","\u{56}\u{20d2}\u{31b}","\u{56}\u{20d2}\u{31b}","\u{56}\u{20d2}\u{31b}"],["\u{57}\u{20d2}\u{31b}","\u{57}\u{20d2}\u{31b}","\u{57}\u{20d2}\u{31b}","\u{57}\u{20d2}\u{31b}"],["\u{58}\u{20d2}\u{31b}","\u{58}\u{20d2}\u{31b}","\u{58}\u{20d2}\u{31b}","\u{58}\u{20d2}\u{31b}"],["\u{59}\u{20d2}\u{31b}","\u{59}\u{20d2}\u{31b}","\u{59}\u{20d2}\u{31b}","\u{59}\u{20d2}\u{31b}"],["\u{5a}\u{20d2}\u{31b}","\u{5a}\u{20d2}\u{31b}","\u{5a}\u{20d2}\u{31b}","\u{5a}\u{20d2}\u{31b}"],["\u{5b}\u{20d2}\u{31b}","\u{5b}\u{20d2}\u{31b}","\u{5b}\u{20d2}\u{31b}","\u{5b}\u{20d2}\u{31b}"],["\u{5c}\u{20d2}\u{31b}","\u{5c}\u{20d2}\u{31b}","\u{5c}\u{20d2}\u{31b}","\u{5c}\u{20d2}\u{31b}"],["\u{5d}\u{20d2}\u{31b}","\u{5d}\u{20d2}\u{31b}","\u{5d}\u{20d2}\u{31b}","\u{5d}\u{20d2}\u{31b}"],["\u{5e}\u{20d2}\u{31b}","\u{5e}\u{20d2}\u{31b}","\u{5e}\u{20d2}\u{31b}","\u{5e}\u{20d2}\u{31b}"],["\u{5f}\u{20d2}\u{31b}","\u{5f}\u{20d2}\u{31b}","\u{5f}\u{20d2}\u{31b}","\u{5f}\u{20d2}\u{31b}"],["\u{60}\u{20d2}\u{31b}","\u{60}\u{20d2}\u{31b}","\u{60}\u{20d2}\u{31b}","\u{60}\u{20d2}\u{31b}"],["\u{61}\u{20d2}\u{31b}","\u{61}\u{20d2}\u{31b}","\u{61}\u{20d2}\u{31b}","\u{61}\u{20d2}\u{31b}"],["\u{62}\u{20d2}\u{31b}","\u{62}\u{20d2}\u{31b}","\u{62}\u{20d2}\u{31b}","\u{62}\u{20d2}\u{31b}"],["\u{63}\u{20d2}\u{31b}","\u{63}\u{20d2}\u{31b}","\u{63}\u{20d2}\u{31b}","\u{63}\u{20d2}\u{31b}"],["\u{64}\u{20d2}\u{31b}","\u{64}\u{20d2}\u{31b}","\u{64}\u{20d2}\u{31b}","\u{64}\u{20d2}\u{31b}"],["\u{65}\u{20d2}\u{31b}","\u{65}\u{20d2}\u{31b}","\u{65}\u{20d2}\u{31b}","\u{65}\u{20d2}\u{31b}"],["\u{66}\u{20d2}\u{31b}","\u{66}\u{20d2}\u{31b}","\u{66}\u{20d2}\u{31b}","\u{66}\u{20d2}\u{31b}"],["\u{67}\u{20d2}\u{31b}","\u{67}\u{20d2}\u{31b}","\u{67}\u{20d2}\u{31b}","\u{67}\u{20d2}\u{31b}"],["\u{68}\u{20d2}\u{31b}","\u{68}\u{20d2}\u{31b}","\u{68}\u{20d2}\u{31b}","\u{68}\u{20d2}\u{31b}"],["\u{69}\u{20d2}\u{31b}","\u{69}\u{20d2}\u{31b}","\u{69}\u{20d2}\u{31b}","\u{69}\u{20d2}\u{31b}"],["\u{6a}\u{20d2}\u{31b}","\u{6a}\u{20d2}\u{31b}","\u{6a}\u{20d2}\u{31b}","\u{6a}\u{20d2}\u{31b}"],["\u{6b}\u{20d2}\u{31b}","\u{6b}\u{20d2}\u{31b}","\u{6b}\u{20d2}\u{31b}","\u{6b}\u{20d2}\u{31b}"],["\u{6c}\u{20d2}\u{31b}","\u{6c}\u{20d2}\u{31b}","\u{6c}\u{20d2}\u{31b}","\u{6c}\u{20d2}\u{31b}"],["\u{6d}\u{20d2}\u{31b}","\u{6d}\u{20d2}\u{31b}","\u{6d}\u{20d2}\u{31b}","\u{6d}\u{20d2}\u{31b}"],["\u{6e}\u{20d2}\u{31b}","\u{6e}\u{20d2}\u{31b}","\u{6e}\u{20d2}\u{31b}","\u{6e}\u{20d2}\u{31b}"],["\u{1a1}\u{20d2}","\u{6f}\u{20d2}\u{31b}","\u{1a1}\u{20d2}","\u{6f}\u{20d2}\u{31b}"],["\u{70}\u{20d2}\u{31b}","\u{70}\u{20d2}\u{31b}","\u{70}\u{20d2}\u{31b}","\u{70}\u{20d2}\u{31b}"],["\u{71}\u{20d2}\u{31b}","\u{71}\u{20d2}\u{31b}","\u{71}\u{20d2}\u{31b}","\u{71}\u{20d2}\u{31b}"],["\u{72}\u{20d2}\u{31b}","\u{72}\u{20d2}\u{31b}","\u{72}\u{20d2}\u{31b}","\u{72}\u{20d2}\u{31b}"],["\u{73}\u{20d2}\u{31b}","\u{73}\u{20d2}\u{31b}","\u{73}\u{20d2}\u{31b}","\u{73}\u{20d2}\u{31b}"],["\u{74}\u{20d2}\u{31b}","\u{74}\u{20d2}\u{31b}","\u{74}\u{20d2}\u{31b}","\u{74}\u{20d2}\u{31b}"],["\u{1b0}\u{20d2}","\u{75}\u{20d2}\u{31b}","\u{1b0}\u{20d2}","\u{75}\u{20d2}\u{31b}"],["\u{76}\u{20d2}\u{31b}","\u{76}\u{20d2}\u{31b}","\u{76}\u{20d2}\u{31b}","\u{76}\u{20d2}\u{31b}"],["\u{77}\u{20d2}\u{31b}","\u{77}\u{20d2}\u{31b}","\u{77}\u{20d2}\u{31b}","\u{77}\u{20d2}\u{31b}"],["\u{78}\u{20d2}\u{31b}","\u{78}\u{20d2}\u{31b}","\u{78}\u{20d2}\u{31b}","\u{78}\u{20d2}\u{31b}"],["\u{79}\u{20d2}\u{31b}","\u{79}\u{20d2}\u{31b}","\u{79}\u{20d2}\u{31b}","\u{79}\u{20d2}\u{31b}"],["\u{7a}\u{20d2}\u{31b}","\u{7a}\u{20d2}\u{31b}","\u{7a}\u{20d2}\u{31b}","\u{7a}\u{20d2}\u{31b}"]],
[["\u{c0}\u{345}","\u{41}\u{300}\u{345}","\u{c0}\u{345}","\u{41}\u{300}\u{345}"],["\u{42}\u{300}\u{345}","\u{42}\u{300}\u{345}","\u{42}\u{300}\u{345}","\u{42}\u{300}\u{345}"],["\u{43}\u{300}\u{345}","\u{43}\u{300}\u{345}","\u{43}\u{300}\u{345}","\u{43}\u{300}\u{345}"],["\u{44}\u{300}\u{345}","\u{44}\u{300}\u{345}","\u{44}\u{300}\u{345}","\u{44}\u{300}\u{345}"],["\u{c8}\u{345}","\u{45}\u{300}\u{345}","\u{c8}\u{345}","\u{45}\u{300}\u{345}"],["\u{46}\u{300}\u{345}","\u{46}\u{300}\u{345}","\u{46}\u{300}\u{345}","\u{46}\u{300}\u{345}"],["\u{47}\u{300}\u{345}","\u{47}\u{300}\u{345}","\u{47}\u{300}\u{345}","\u{47}\u{300}\u{345}"],["\u{48}\u{300}\u{345}","\u{48}\u{300}\u{345}","\u{48}\u{300}\u{345}","\u{48}\u{300}\u{345}"],["\u{cc}\u{345}","\u{49}\u{300}\u{345}","\u{cc}\u{345}","\u{49}\u{300}\u{345}"],["\u{4a}\u{300}\u{345}","\u{4a}\u{300}\u{345}","\u{4a}\u{300}\u{345}","\u{4a}\u{300}\u{345}"],["\u{4b}\u{300}\u{345}","\u{4b}\u{300}\u{345}","\u{4b}\u{300}\u{345}","\u{4b}\u{300}\u{345}"],["\u{4c}\u{300}\u{345}","\u{4c}\u{300}\u{345}","\u{4c}\u{300}\u{345}","\u{4c}\u{300}\u{345}"],["\u{4d}\u{300}\u{345}","\u{4d}\u{300}\u{345}","\u{4d}\u{300}\u{345}","\u{4d}\u{300}\u{345}"],["\u{1f8}\u{345}","\u{4e}\u{300}\u{345}","\u{1f8}\u{345}","\u{4e}\u{300}\u{345}"],["\u{d2}\u{345}","\u{4f}\u{300}\u{345}","\u{d2}\u{345}","\u{4f}\u{300}\u{345}"],["\u{50}\u{300}\u{345}","\u{50}\u{300}\u{345}","\u{50}\u{300}\u{345}","\u{50}\u{300}\u{345}"],["\u{51}\u{300}\u{345}","\u{51}\u{300}\u{345}","\u{51}\u{300}\u{345}","\u{51}\u{300}\u{345}"],["\u{52}\u{300}\u{345}","\u{52}\u{300}\u{345}","\u{52}\u{300}\u{345}","\u{52}\u{300}\u{345}"],["\u{53}\u{300}\u{345}","\u{53}\u{300}\u{345}","\u{53}\u{300}\u{345}","\u{53}\u{300}\u{345}"],["\u{54}\u{300}\u{345}","\u{54}\u{300}\u{345}","\u{54}\u{300}\u{345}","\u{54}\u{300}\u{345}"],["\u{d9}\u{345}","\u{55}\u{300}\u{345}","\u{d9}\u{345}","\u{55}\u{300}\u{345}"],["\u{56}\u{300}\u{345}","\u{56}\u{300}\u{345}","\u{56}\u{300}\u{345}","\u{56}\u{300}\u{345}"],["\u{1e80}\u{345}","\u{57}\u{300}\u{345}","\u{1e80}\u{345}","\u{57}\u{300}\u{345}"],["\u{58}\u{300}\u{345}","\u{58}\u{300}\u{345}","\u{58}\u{300}\u{345}","\u{58}\u{300}\u{345}"],["\u{1ef2}\u{345}","\u{59}\u{300}\u{345}","\u{1ef2}\u{345}","\u{59}\u{300}\u{345}"],["\u{5a}\u{300}\u{345}","\u{5a}\u{300}\u{345}","\u{5a}\u{300}\u{345}","\u{5a}\u{300}\u{345}"],["\u{5b}\u{300}\u{345}","\u{5b}\u{300}\u{345}","\u{5b}\u{300}\u{345}","\u{5b}\u{300}\u{345}"],["\u{5c}\u{300}\u{345}","\u{5c}\u{300}\u{345}","\u{5c}\u{300}\u{345}","\u{5c}\u{300}\u{345}"],["\u{5d}\u{300}\u{345}","\u{5d}\u{300}\u{345}","\u{5d}\u{300}\u{345}","\u{5d}\u{300}\u{345}"],["\u{5e}\u{300}\u{345}","\u{5e}\u{300}\u{345}","\u{5e}\u{300}\u{345}","\u{5e}\u{300}\u{345}"],["\u{5f}\u{300}\u{345}","\u{5f}\u{300}\u{345}","\u{5f}\u{300}\u{345}","\u{5f}\u{300}\u{345}"],["\u{60}\u{300}\u{345}","\u{60}\u{300}\u{345}","\u{60}\u{300}\u{345}","\u{60}\u{300}\u{345}"],["\u{e0}\u{345}","\u{61}\u{300}\u{345}","\u{e0}\u{345}","\u{61}\u{300}\u{345}"],["\u{62}\u{300}\u{345}","\u{62}\u{300}\u{345}","\u{62}\u{300}\u{345}","\u{62}\u{300}\u{345}"],["\u{63}\u{300}\u{345}","\u{63}\u{300}\u{345}","\u{63}\u{300}\u{345}","\u{63}\u{300}\u{345}"],["\u{64}\u{300}\u{345}","\u{64}\u{300}\u{345}","\u{64}\u{300}\u{345}","\u{64}\u{300}\u{345}"],["\u{e8}\u{345}","\u{65}\u{300}\u{345}","\u{e8}\u{345}","\u{65}\u{300}\u{345}"],["\u{66}\u{300}\u{345}","\u{66}\u{300}\u{345}","\u{66}\u{300}\u{345}","\u{66}\u{300}\u{345}"],["\u{67}\u{300}\u{345}","\u{67}\u{300}\u{345}","\u{67}\u{300}\u{345}","\u{67}\u{300}\u{345}"],["\u{68}\u{300}\u{345}","\u{68}\u{300}\u{345}","\u{68}\u{300}\u{345}","\u{68}\u{300}\u{345}"],["\u{ec}\u{345}","\u{69}\u{300}\u{345}","\u{ec}\u{345}","\u{69}\u{300}\u{345}"],["\u{6a}\u{300}\u{345}","\u{6a}\u{300}\u{345}","\u{6a}\u{300}\u{345}","\u{6a}\u{300}\u{345}"],["\u{6b}\u{300}\u{345}","\u{6b}\u{300}\u{345}","\u{6b}\u{300}\u{345}","\u{6b}\u{300}\u{345}"],["\u{6c}\u{300}\u{345}","\u{6c}\u{300}\u{345}","\u{6c}\u{300}\u{345}","\u{6c}\u{300}\u{345}"],["\u{6d}\u{300}\u{345}","\u{6d}\u{300}\u{345}","\u{6d}\u{300}\u{345}","\u{6d}\u{300}\u{345}"],["\u{1f9}\u{345}","\u{6e}\u{300}\u{345}","\u{1f9}\u{345}","\u{6e}\u{300}\u{345}"],["\u{f2}\u{345}","\u{6f}\u{300}\u{345}","\u{f2}\u{345}","\u{6f}\u{300}\u{345}"],["\u{70}\u{300}\u{345}","\u{70}\u{300}\u{345}","\u{70}\u{300}\u{345}","\u{70}\u{300}\u{345}"],["\u{71}\u{300}\u{345}","\u{71}\u{300}\u{345}","\u{71}\u{300}\u{345}","\u{71}\u{300}\u{345}"],["\u{72}\u{300}\u{345}","\u{72}\u{300}\u{345}","\u{72}\u{300}\u{345}","\u{72}\u{300}\u{345}"],["\u{73}\u{300}\u{345}","\u{73}\u{300}\u{345}","\u{73}\u{300}\u{345}","\u{73}\u{300}\u{345}"],["\u{74}\u{300}\u{345}","\u{74}\u{300}\u{345}","\u{74}\u{300}\u{345}","\u{74}\u{300}\u{345}"],["\u{f9}\u{345}","\u{75}\u{300}\u{345}","\u{f9}\u{345}","\u{75}\u{300}\u{345}"],["\u{76}\u{300}\u{345}","\u{76}\u{300}\u{345}","\u{76}\u{300}\u{345}","\u{76}\u{300}\u{345}"],["\u{1e81}\u{345}","\u{77}\u{300}\u{345}","\u{1e81}\u{345}","\u{77}\u{300}\u{345}"],["\u{78}\u{300}\u{345}","\u{78}\u{300}\u{345}","\u{78}\u{300}\u{345}","\u{78}\u{300}\u{345}"],["\u{1ef3}\u{345}","\u{79}\u{300}\u{345}","\u{1ef3}\u{345}","\u{79}\u{300}\u{345}"],["\u{7a}\u{300}\u{345}","\u{7a}\u{300}\u{345}","\u{7a}\u{300}\u{345}","\u{7a}\u{300}\u{345}"]],
[["\u{c1}\u{345}","\u{41}\u{301}\u{345}","\u{c1}\u{345}","\u{41}\u{301}\u{345}"],["\u{42}\u{301}\u{345}","\u{42}\u{301}\u{345}","\u{42}\u{301}\u{345}","\u{42}\u{301}\u{345}"],["\u{106}\u{345}","\u{43}\u{301}\u{345}","\u{106}\u{345}","\u{43}\u{301}\u{345}"],["\u{44}\u{301}\u{345}","\u{44}\u{301}\u{345}","\u{44}\u{301}\u{345}","\u{44}\u{301}\u{345}"],["\u{c9}\u{345}","\u{45}\u{301}\u{345}","\u{c9}\u{345}","\u{45}\u{301}\u{345}"],["\u{46}\u{301}\u{345}","\u{46}\u{301}\u{345}","\u{46}\u{301}\u{345}","\u{46}\u{301}\u{345}"],["\u{1f4}\u{345}","\u{47}\u{301}\u{345}","\u{1f4}\u{345}","\u{47}\u{301}\u{345}"],["\u{48}\u{301}\u{345}","\u{48}\u{301}\u{345}","\u{48}\u{301}\u{345}","\u{48}\u{301}\u{345}"],["\u{cd}\u{345}","\u{49}\u{301}\u{345}","\u{cd}\u{345}","\u{49}\u{301}\u{345}"],["\u{4a}\u{301}\u{345}","\u{4a}\u{301}\u{345}","\u{4a}\u{301}\u{345}","\u{4a}\u{301}\u{345}"],["\u{1e30}\u{345}","\u{4b}\u{301}\u{345}","\u{1e30}\u{345}","\u{4b}\u{301}\u{345}"],["\u{139}\u{345}","\u{4c}\u{301}\u{345}","\u{139}\u{345}","\u{4c}\u{301}\u{345}"],["\u{1e3e}\u{345}","\u{4d}\u{301}\u{345}","\u{1e3e}\u{345}","\u{4d}\u{301}\u{345}"],["\u{143}\u{345}","\u{4e}\u{301}\u{345}","\u{143}\u{345}","\u{4e}\u{301}\u{345}"],["\u{d3}\u{345}","\u{4f}\u{301}\u{345}","\u{d3}\u{345}","\u{4f}\u{301}\u{345}"],["\u{1e54}\u{345}","\u{50}\u{301}\u{345}","\u{1e54}\u{345}","\u{50}\u{301}\u{345}"],["\u{51}\u{301}\u{345}","\u{51}\u{301}\u{345}","\u{51}\u{301}\u{345}","\u{51}\u{301}\u{345}"],["\u{154}\u{345}","\u{52}\u{301}\u{345}","\u{154}\u{345}","\u{52}\u{301}\u{345}"],["\u{15a}\u{345}","\u{53}\u{301}\u{345}","\u{15a}\u{345}","\u{53}\u{301}\u{345}"],["\u{54}\u{301}\u{345}","\u{54}\u{301}\u{345}","\u{54}\u{301}\u{345}","\u{54}\u{301}\u{345}"],["\u{da}\u{345}","\u{55}\u{301}\u{345}","\u{da}\u{345}","\u{55}\u{301}\u{345}"],["\u{56}\u{301}\u{345}","\u{56}\u{301}\u{345}","\u{56}\u{301}\u{345}","\u{56}\u{301}\u{345}"],["\u{1e82}\u{345}","\u{57}\u{301}\u{345}","\u{1e82}\u{345}","\u{57}\u{301}\u{345}"],["\u{58}\u{301}\u{345}","\u{58}\u{301}\u{345}","\u{58}\u{301}\u{345}","\u{58}\u{301}\u{345}"],["\u{dd}\u{345}","\u{59}\u{301}\u{345}","\u{dd}\u{345}","\u{59}\u{301}\u{345}"],["\u{179}\u{345}","\u{5a}\u{301}\u{345}","\u{179}\u{345}","\u{5a}\u{301}\u{345}"],["\u{5b}\u{301}\u{345}","\u{5b}\u{301}\u{345}","\u{5b}\u{301}\u{345}","\u{5b}\u{301}\u{345}"],["\u{5c}\u{301}\u{345}","\u{5c}\u{301}\u{345}","\u{5c}\u{301}\u{345}","\u{5c}\u{301}\u{345}"],["\u{5d}\u{301}\u{345}","\u{5d}\u{301}\u{345}","\u{5d}\u{301}\u{345}","\u{5d}\u{301}\u{345}"],["\u{5e}\u{301}\u{345}","\u{5e}\u{301}\u{345}","\u{5e}\u{301}\u{345}","\u{5e}\u{301}\u{345}"],["\u{5f}\u{301}\u{345}","\u{5f}\u{301}\u{345}","\u{5f}\u{301}\u{345}","\u{5f}\u{301}\u{345}"],["\u{60}\u{301}\u{345}","\u{60}\u{301}\u{345}","\u{60}\u{301}\u{345}","\u{60}\u{301}\u{345}"],["\u{e1}\u{345}","\u{61}\u{301}\u{345}","\u{e1}\u{345}","\u{61}\u{301}\u{345}"],["\u{62}\u{301}\u{345}","\u{62}\u{301}\u{345}","\u{62}\u{301}\u{345}","\u{62}\u{301}\u{345}"],["\u{107}\u{345}","\u{63}\u{301}\u{345}","\u{107}\u{345}","\u{63}\u{301}\u{345}"],["\u{64}\u{301}\u{345}","\u{64}\u{301}\u{345}","\u{64}\u{301}\u{345}","\u{64}\u{301}\u{345}"],["\u{e9}\u{345}","\u{65}\u{301}\u{345}","\u{e9}\u{345}","\u{65}\u{301}\u{345}"],["\u{66}\u{301}\u{345}","\u{66}\u{301}\u{345}","\u{66}\u{301}\u{345}","\u{66}\u{301}\u{345}"],["\u{1f5}\u{345}","\u{67}\u{301}\u{345}","\u{1f5}\u{345}","\u{67}\u{301}\u{345}"],["\u{68}\u{301}\u{345}","\u{68}\u{301}\u{345}","\u{68}\u{301}\u{345}","\u{68}\u{301}\u{345}"],["\u{ed}\u{345}","\u{69}\u{301}\u{345}","\u{ed}\u{345}","\u{69}\u{301}\u{345}"],["\u{6a}\u{301}\u{345}","\u{6a}\u{301}\u{345}","\u{6a}\u{301}\u{345}","\u{6a}\u{301}\u{345}"],["\u{1e31}\u{345}","\u{6b}\u{301}\u{345}","\u{1e31}\u{345}","\u{6b}\u{301}\u{345}"],["\u{13a}\u{345}","\u{6c}\u{301}\u{345}","\u{13a}\u{345}","\u{6c}\u{301}\u{345}"],["\u{1e3f}\u{345}","\u{6d}\u{301}\u{345}","\u{1e3f}\u{345}","\u{6d}\u{301}\u{345}"],["\u{144}\u{345}","\u{6e}\u{301}\u{345}","\u{144}\u{345}","\u{6e}\u{301}\u{345}"],["\u{f3}\u{345}","\u{6f}\u{301}\u{345}","\u{f3}\u{345}","\u{6f}\u{301}\u{345}"],["\u{1e55}\u{345}","\u{70}\u{301}\u{345}","\u{1e55}\u{345}","\u{70}\u{301}\u{345}"],["\u{71}\u{301}\u{345}","\u{71}\u{301}\u{345}","\u{71}\u{301}\u{345}","\u{71}\u{301}\u{345}"],["\u{155}\u{345}","\u{72}\u{301}\u{345}","\u{155}\u{345}","\u{72}\u{301}\u{345}"],["\u{15b}\u{345}","\u{73}\u{301}\u{345}","\u{15b}\u{345}","\u{73}\u{301}\u{345}"],["\u{74}\u{301}\u{345}","\u{74}\u{301}\u{345}","\u{74}\u{301}\u{345}","\u{74}\u{301}\u{345}"],["\u{fa}\u{345}","\u{75}\u{301}\u{345}","\u{fa}\u{345}","\u{75}\u{301}\u{345}"],["\u{76}\u{301}\u{345}","\u{76}\u{301}\u{345}","\u{76}\u{301}\u{345}","\u{76}\u{301}\u{345}"],["\u{1e83}\u{345}","\u{77}\u{301}\u{345}","\u{1e83}\u{345}","\u{77}\u{301}\u{345}"],["\u{78}\u{301}\u{345}","\u{78}\u{301}\u{345}","\u{78}\u{301}\u{345}","\u{78}\u{301}\u{345}"],["\u{fd}\u{345}","\u{79}\u{301}\u{345}","\u{fd}\u{345}","\u{79}\u{301}\u{345}"],["\u{17a}\u{345}","\u{7a}\u{301}\u{345}","\u{17a}\u{345}","\u{7a}\u{301}\u{345}"]],
[["\u{c2}\u{345}","\u{41}\u{302}\u{345}","\u{c2}\u{345}","\u{41}\u{302}\u{345}"],["\u{42}\u{302}\u{345}","\u{42}\u{302}\u{345}","\u{42}\u{302}\u{345}","\u{42}\u{302}\u{345}"],["\u{108}\u{345}","\u{43}\u{302}\u{345}","\u{108}\u{345}","\u{43}\u{302}\u{345}"],["\u{44}\u{302}\u{345}","\u{44}\u{302}\u{345}","\u{44}\u{302}\u{345}","\u{44}\u{302}\u{345}"],["\u{ca}\u{345}","\u{45}\u{302}\u{345}","\u{ca}\u{345}","\u{45}\u{302}\u{345}"],["\u{46}\u{302}\u{345}","\u{46}\u{302}\u{345}","\u{46}\u{302}\u{345}","\u{46}\u{302}\u{345}"],["\u{11c}\u{345}","\u{47}\u{302}\u{345}","\u{11c}\u{345}","\u{47}\u{302}\u{345}"],["\u{124}\u{345}","\u{48}\u{302}\u{345}","\u{124}\u{345}","\u{48}\u{302}\u{345}"],["\u{ce}\u{345}","\u{49}\u{302}\u{345}","\u{ce}\u{345}","\u{49}\u{302}\u{345}"],["\u{134}\u{345}","\u{4a}\u{302}\u{345}","\u{134}\u{345}","\u{4a}\u{302}\u{345}"],["\u{4b}\u{302}\u{345}","\u{4b}\u{302}\u{345}","\u{4b}\u{302}\u{345}","\u{4b}\u{302}\u{345}"],["\u{4c}\u{302}\u{345}","\u{4c}\u{302}\u{345}","\u{4c}\u{302}\u{345}","\u{4c}\u{302}\u{345}"],["\u{4d}\u{302}\u{345}","\u{4d}\u{302}\u{345}","\u{4d}\u{302}\u{345}","\u{4d}\u{302}\u{345}"],["\u{4e}\u{302}\u{345}","\u{4e}\u{302}\u{345}","\u{4e}\u{302}\u{345}","\u{4e}\u{302}\u{345}"],["\u{d4}\u{345}","\u{4f}\u{302}\u{345}","\u{d4}\u{345}","\u{4f}\u{302}\u{345}"],["\u{50}\u{302}\u{345}","\u{50}\u{302}\u{345}","\u{50}\u{302}\u{345}","\u{50}\u{302}\u{345}"],["\u{51}\u{302}\u{345}","\u{51}\u{302}\u{345}","\u{51}\u{302}\u{345}","\u{51}\u{302}\u{345}"],["\u{52}\u{302}\u{345}","\u{52}\u{302}\u{345}","\u{52}\u{302}\u{345}","\u{52}\u{302}\u{345}"],["\u{15c}\u{345}","\u{53}\u{302}\u{345}","\u{15c}\u{345}","\u{53}\u{302}\u{345}"],["\u{54}\u{302}\u{345}","\u{54}\u{302}\u{345}","\u{54}\u{302}\u{345}","\u{54}\u{302}\u{345}"],["\u{db}\u{345}","\u{55}\u{302}\u{345}","\u{db}\u{345}","\u{55}\u{302}\u{345}"],["\u{56}\u{302}\u{345}","\u{56}\u{302}\u{345}","\u{56}\u{302}\u{345}","\u{56}\u{302}\u{345}"],["\u{174}\u{345}","\u{57}\u{302}\u{345}","\u{174}\u{345}","\u{57}\u{302}\u{345}"],["\u{58}\u{302}\u{345}","\u{58}\u{302}\u{345}","\u{58}\u{302}\u{345}","\u{58}\u{302}\u{345}"],["\u{176}\u{345}","\u{59}\u{302}\u{345}","\u{176}\u{345}","\u{59}\u{302}\u{345}"],["\u{1e90}\u{345}","\u{5a}\u{302}\u{345}","\u{1e90}\u{345}","\u{5a}\u{302}\u{345}"],["\u{5b}\u{302}\u{345}","\u{5b}\u{302}\u{345}","\u{5b}\u{302}\u{345}","\u{5b}\u{302}\u{345}"],["\u{5c}\u{302}\u{345}","\u{5c}\u{302}\u{345}","\u{5c}\u{302}\u{345}","\u{5c}\u{302}\u{345}"],["\u{5d}\u{302}\u{345}","\u{5d}\u{302}\u{345}","\u{5d}\u{302}\u{345}","\u{5d}\u{302}\u{345}"],["\u{5e}\u{302}\u{345}","\u{5e}\u{302}\u{345}","\u{5e}\u{302}\u{345}","\u{5e}\u{302}\u{345}"],["\u{5f}\u{302}\u{345}","\u{5f}\u{302}\u{345}","\u{5f}\u{302}\u{345}","\u{5f}\u{302}\u{345}"],["\u{60}\u{302}\u{345}","\u{60}\u{302}\u{345}","\u{60}\u{302}\u{345}","\u{60}\u{302}\u{345}"],["\u{e2}\u{345}","\u{61}\u{302}\u{345}","\u{e2}\u{345}","\u{61}\u{302}\u{345}"],["\u{62}\u{302}\u{345}","\u{62}\u{302}\u{345}","\u{62}\u{302}\u{345}","\u{62}\u{302}\u{345}"],["\u{109}\u{345}","\u{63}\u{302}\u{345}","\u{109}\u{345}","\u{63}\u{302}\u{345}"],["\u{64}\u{302}\u{345}","\u{64}\u{302}\u{345}","\u{64}\u{302}\u{345}","\u{64}\u{302}\u{345}"],["\u{ea}\u{345}","\u{65}\u{302}\u{345}","\u{ea}\u{345}","\u{65}\u{302}\u{345}"],["\u{66}\u{302}\u{345}","\u{66}\u{302}\u{345}","\u{66}\u{302}\u{345}","\u{66}\u{302}\u{345}"],["\u{11d}\u{345}","\u{67}\u{302}\u{345}","\u{11d}\u{345}","\u{67}\u{302}\u{345}"],["\u{125}\u{345}","\u{68}\u{302}\u{345}","\u{125}\u{345}","\u{68}\u{302}\u{345}"],["\u{ee}\u{345}","\u{69}\u{302}\u{345}","\u{ee}\u{345}","\u{69}\u{302}\u{345}"],["\u{135}\u{345}","\u{6a}\u{302}\u{345}","\u{135}\u{345}","\u{6a}\u{302}\u{345}"],["\u{6b}\u{302}\u{345}","\u{6b}\u{302}\u{345}","\u{6b}\u{302}\u{345}","\u{6b}\u{302}\u{345}"],["\u{6c}\u{302}\u{345}","\u{6c}\u{302}\u{345}","\u{6c}\u{302}\u{345}","\u{6c}\u{302}\u{345}"],["\u{6d}\u{302}\u{345}","\u{6d}\u{302}\u{345}","\u{6d}\u{302}\u{345}","\u{6d}\u{302}\u{345}"],["\u{6e}\u{302}\u{345}","\u{6e}\u{302}\u{345}","\u{6e}\u{302}\u{345}","\u{6e}\u{302}\u{345}"],["\u{f4}\u{345}","\u{6f}\u{302}\u{345}","\u{f4}\u{345}","\u{6f}\u{302}\u{345}"],["\u{70}\u{302}\u{345}","\u{70}\u{302}\u{345}","\u{70}\u{302}\u{345}","\u{70}\u{302}\u{345}"],["\u{71}\u{302}\u{345}","\u{71}\u{302}\u{345}","\u{71}\u{302}\u{345}","\u{71}\u{302}\u{345}"],["\u{72}\u{302}\u{345}","\u{72}\u{302}\u{345}","\u{72}\u{302}\u{345}","\u{72}\u{302}\u{345}"],["\u{15d}\u{345}","\u{73}\u{302}\u{345}","\u{15d}\u{345}","\u{73}\u{302}\u{345}"],["\u{74}\u{302}\u{345}","\u{74}\u{302}\u{345}","\u{74}\u{302}\u{345}","\u{74}\u{302}\u{345}"],["\u{fb}\u{345}","\u{75}\u{302}\u{345}","\u{fb}\u{345}","\u{75}\u{302}\u{345}"],["\u{76}\u{302}\u{345}","\u{76}\u{302}\u{345}","\u{76}\u{302}\u{345}","\u{76}\u{302}\u{345}"],["\u{175}\u{345}","\u{77}\u{302}\u{345}","\u{175}\u{345}","\u{77}\u{302}\u{345}"],["\u{78}\u{302}\u{345}","\u{78}\u{302}\u{345}","\u{78}\u{302}\u{345}","\u{78}\u{302}\u{345}"],["\u{177}\u{345}","\u{79}\u{302}\u{345}","\u{177}\u{345}","\u{79}\u{302}\u{345}"],["\u{1e91}\u{345}","\u{7a}\u{302}\u{345}","\u{1e91}\u{345}","\u{7a}\u{302}\u{345}"]],
[["\u{c3}\u{345}","\u{41}\u{303}\u{345}","\u{c3}\u{345}","\u{41}\u{303}\u{345}"],["\u{42}\u{303}\u{345}","\u{42}\u{303}\u{345}","\u{42}\u{303}\u{345}","\u{42}\u{303}\u{345}"],["\u{43}\u{303}\u{345}","\u{43}\u{303}\u{345}","\u{43}\u{303}\u{345}","\u{43}\u{303}\u{345}"],["\u{44}\u{303}\u{345}","\u{44}\u{303}\u{345}","\u{44}\u{303}\u{345}","\u{44}\u{303}\u{345}"],["\u{1ebc}\u{345}","\u{45}\u{303}\u{345}","\u{1ebc}\u{345}","\u{45}\u{303}\u{345}"],["\u{46}\u{303}\u{345}","\u{46}\u{303}\u{345}","\u{46}\u{303}\u{345}","\u{46}\u{303}\u{345}"],["\u{47}\u{303}\u{345}","\u{47}\u{303}\u{345}","\u{47}\u{303}\u{345}","\u{47}\u{303}\u{345}"],["\u{48}\u{303}\u{345}","\u{48}\u{303}\u{345}","\u{48}\u{303}\u{345}","\u{48}\u{303}\u{345}"],["\u{128}\u{345}","\u{49}\u{303}\u{345}","\u{128}\u{345}","\u{49}\u{303}\u{345}"],["\u{4a}\u{303}\u{345}","\u{4a}\u{303}\u{345}","\u{4a}\u{303}\u{345}","\u{4a}\u{303}\u{345}"],["\u{4b}\u{303}\u{345}","\u{4b}\u{303}\u{345}","\u{4b}\u{303}\u{345}","\u{4b}\u{303}\u{345}"],["\u{4c}\u{303}\u{345}","\u{4c}\u{303}\u{345}","\u{4c}\u{303}\u{345}","\u{4c}\u{303}\u{345}"],["\u{4d}\u{303}\u{345}","\u{4d}\u{303}\u{345}","\u{4d}\u{303}\u{345}","\u{4d}\u{303}\u{345}"],["\u{d1}\u{345}","\u{4e}\u{303}\u{345}","\u{d1}\u{345}","\u{4e}\u{303}\u{345}"],["\u{d5}\u{345}","\u{4f}\u{303}\u{345}","\u{d5}\u{345}","\u{4f}\u{303}\u{345}"],["\u{50}\u{303}\u{345}","\u{50}\u{303}\u{345}","\u{50}\u{303}\u{345}","\u{50}\u{303}\u{345}"],["\u{51}\u{303}\u{345}","\u{51}\u{303}\u{345}","\u{51}\u{303}\u{345}","\u{51}\u{303}\u{345}"],["\u{52}\u{303}\u{345}","\u{52}\u{303}\u{345}","\u{52}\u{303}\u{345}","\u{52}\u{303}\u{345}"],["\u{53}\u{303}\u{345}","\u{53}\u{303}\u{345}","\u{53}\u{303}\u{345}","\u{53}\u{303}\u{345}"],["\u{54}\u{303}\u{345}","\u{54}\u{303}\u{345}","\u{54}\u{303}\u{345}","\u{54}\u{303}\u{345}"],["\u{168}\u{345}","\u{55}\u{303}\u{345}","\u{168}\u{345}","\u{55}\u{303}\u{345}"],["\u{1e7c}\u{345}","\u{56}\u{303}\u{345}","\u{1e7c}\u{345}","\u{56}\u{303}\u{345}"],["\u{57}\u{303}\u{345}","\u{57}\u{303}\u{345}","\u{57}\u{303}\u{345}","\u{57}\u{303}\u{345}"],["\u{58}\u{303}\u{345}","\u{58}\u{303}\u{345}","\u{58}\u{303}\u{345}","\u{58}\u{303}\u{345}"],["\u{1ef8}\u{345}","\u{59}\u{303}\u{345}","\u{1ef8}\u{345}","\u{59}\u{303}\u{345}"],["\u{5a}\u{303}\u{345}","\u{5a}\u{303}\u{345}","\u{5a}\u{303}\u{345}","\u{5a}\u{303}\u{345}"],["\u{5b}\u{303}\u{345}","\u{5b}\u{303}\u{345}","\u{5b}\u{303}\u{345}","\u{5b}\u{303}\u{345}"],["\u{5c}\u{303}\u{345}","\u{5c}\u{303}\u{345}","\u{5c}\u{303}\u{345}","\u{5c}\u{303}\u{345}"],["\u{5d}\u{303}\u{345}","\u{5d}\u{303}\u{345}","\u{5d}\u{303}\u{345}","\u{5d}\u{303}\u{345}"],["\u{5e}\u{303}\u{345}","\u{5e}\u{303}\u{345}","\u{5e}\u{303}\u{345}","\u{5e}\u{303}\u{345}"],["\u{5f}\u{303}\u{345}","\u{5f}\u{303}\u{345}","\u{5f}\u{303}\u{345}","\u{5f}\u{303}\u{345}"],["\u{60}\u{303}\u{345}","\u{60}\u{303}\u{345}","\u{60}\u{303}\u{345}","\u{60}\u{303}\u{345}"],["\u{e3}\u{345}","\u{61}\u{303}\u{345}","\u{e3}\u{345}","\u{61}\u{303}\u{345}"],["\u{62}\u{303}\u{345}","\u{62}\u{303}\u{345}","\u{62}\u{303}\u{345}","\u{62}\u{303}\u{345}"],["\u{63}\u{303}\u{345}","\u{63}\u{303}\u{345}","\u{63}\u{303}\u{345}","\u{63}\u{303}\u{345}"],["\u{64}\u{303}\u{345}","\u{64}\u{303}\u{345}","\u{64}\u{303}\u{345}","\u{64}\u{303}\u{345}"],["\u{1ebd}\u{345}","\u{65}\u{303}\u{345}","\u{1ebd}\u{345}","\u{65}\u{303}\u{345}"],["\u{66}\u{303}\u{345}","\u{66}\u{303}\u{345}","\u{66}\u{303}\u{345}","\u{66}\u{303}\u{345}"],["\u{67}\u{303}\u{345}","\u{67}\u{303}\u{345}","\u{67}\u{303}\u{345}","\u{67}\u{303}\u{345}"],["\u{68}\u{303}\u{345}","\u{68}\u{303}\u{345}","\u{68}\u{303}\u{345}","\u{68}\u{303}\u{345}"],["\u{129}\u{345}","\u{69}\u{303}\u{345}","\u{129}\u{345}","\u{69}\u{303}\u{345}"],["\u{6a}\u{303}\u{345}","\u{6a}\u{303}\u{345}","\u{6a}\u{303}\u{345}","\u{6a}\u{303}\u{345}"],["\u{6b}\u{303}\u{345}","\u{6b}\u{303}\u{345}","\u{6b}\u{303}\u{345}","\u{6b}\u{303}\u{345}"],["\u{6c}\u{303}\u{345}","\u{6c}\u{303}\u{345}","\u{6c}\u{303}\u{345}","\u{6c}\u{303}\u{345}"],["\u{6d}\u{303}\u{345}","\u{6d}\u{303}\u{345}","\u{6d}\u{303}\u{345}","\u{6d}\u{303}\u{345}"],["\u{f1}\u{345}","\u{6e}\u{303}\u{345}","\u{f1}\u{345}","\u{6e}\u{303}\u{345}"],["\u{f5}\u{345}","\u{6f}\u{303}\u{345}","\u{f5}\u{345}","\u{6f}\u{303}\u{345}"],["\u{70}\u{303}\u{345}","\u{70}\u{303}\u{345}","\u{70}\u{303}\u{345}","\u{70}\u{303}\u{345}"],["\u{71}\u{303}\u{345}","\u{71}\u{303}\u{345}","\u{71}\u{303}\u{345}","\u{71}\u{303}\u{345}"],["\u{72}\u{303}\u{345}","\u{72}\u{303}\u{345}","\u{72}\u{303}\u{345}","\u{72}\u{303}\u{345}"],["\u{73}\u{303}\u{345}","\u{73}\u{303}\u{345}","\u{73}\u{303}\u{345}","\u{73}\u{303}\u{345}"],["\u{74}\u{303}\u{345}","\u{74}\u{303}\u{345}","\u{74}\u{303}\u{345}","\u{74}\u{303}\u{345}"],["\u{169}\u{345}","\u{75}\u{303}\u{345}","\u{169}\u{345}","\u{75}\u{303}\u{345}"],["\u{1e7d}\u{345}","\u{76}\u{303}\u{345}","\u{1e7d}\u{345}","\u{76}\u{303}\u{345}"],["\u{77}\u{303}\u{345}","\u{77}\u{303}\u{345}","\u{77}\u{303}\u{345}","\u{77}\u{303}\u{345}"],["\u{78}\u{303}\u{345}","\u{78}\u{303}\u{345}","\u{78}\u{303}\u{345}","\u{78}\u{303}\u{345}"],["\u{1ef9}\u{345}","\u{79}\u{303}\u{345}","\u{1ef9}\u{345}","\u{79}\u{303}\u{345}"],["\u{7a}\u{303}\u{345}","\u{7a}\u{303}\u{345}","\u{7a}\u{303}\u{345}","\u{7a}\u{303}\u{345}"]],
[["\u{c4}\u{345}","\u{41}\u{308}\u{345}","\u{c4}\u{345}","\u{41}\u{308}\u{345}"],["\u{42}\u{308}\u{345}","\u{42}\u{308}\u{345}","\u{42}\u{308}\u{345}","\u{42}\u{308}\u{345}"],["\u{43}\u{308}\u{345}","\u{43}\u{308}\u{345}","\u{43}\u{308}\u{345}","\u{43}\u{308}\u{345}"],["\u{44}\u{308}\u{345}","\u{44}\u{308}\u{345}","\u{44}\u{308}\u{345}","\u{44}\u{308}\u{345}"],["\u{cb}\u{345}","\u{45}\u{308}\u{345}","\u{cb}\u{345}","\u{45}\u{308}\u{345}"],["\u{46}\u{308}\u{345}","\u{46}\u{308}\u{345}","\u{46}\u{308}\u{345}","\u{46}\u{308}\u{345}"],["\u{47}\u{308}\u{345}","\u{47}\u{308}\u{345}","\u{47}\u{308}\u{345}","\u{47}\u{308}\u{345}"],["\u{1e26}\u{345}","\u{48}\u{308}\u{345}","\u{1e26}\u{345}","\u{48}\u{308}\u{345}"],["\u{cf}\u{345}","\u{49}\u{308}\u{345}","\u{cf}\u{345}","\u{49}\u{308}\u{345}"],["\u{4a}\u{308}\u{345}","\u{4a}\u{308}\u{345}","\u{4a}\u{308}\u{345}","\u{4a}\u{308}\u{345}"],["\u{4b}\u{308}\u{345}","\u{4b}\u{308}\u{345}","\u{4b}\u{308}\u{345}","\u{4b}\u{308}\u{345}"],["\u{4c}\u{308}\u{345}","\u{4c}\u{308}\u{345}","\u{4c}\u{308}\u{345}","\u{4c}\u{308}\u{345}"],["\u{4d}\u{308}\u{345}","\u{4d}\u{308}\u{345}","\u{4d}\u{308}\u{345}","\u{4d}\u{308}\u{345}"],["\u{4e}\u{308}\u{345}","\u{4e}\u{308}\u{345}","\u{4e}\u{308}\u{345}","\u{4e}\u{308}\u{345}"],["\u{d6}\u{345}","\u{4f}\u{308}\u{345}","\u{d6}\u{345}","\u{4f}\u{308}\u{345}"],["\u{50}\u{308}\u{345}","\u{50}\u{308}\u{345}","\u{50}\u{308}\u{345}","\u{50}\u{308}\u{345}"],["\u{51}\u{308}\u{345}","\u{51}\u{308}\u{345}","\u{51}\u{308}\u{345}","\u{51}\u{308}\u{345}"],["\u{52}\u{308}\u{345}","\u{52}\u{308}\u{345}","\u{52}\u{308}\u{345}","\u{52}\u{308}\u{345}"],["\u{53}\u{308}\u{345}","\u{53}\u{308}\u{345}","\u{53}\u{308}\u{345}","\u{53}\u{308}\u{345}"],["\u{54}\u{308}\u{345}","\u{54}\u{308}\u{345}","\u{54}\u{308}\u{345}","\u{54}\u{308}\u{345}"],["\u{dc}\u{345}","\u{55}\u{308}\u{345}","\u{dc}\u{345}","\u{55}\u{308}\u{345}"],["\u{56}\u{308}\u{345}","\u{56}\u{308}\u{345}","\u{56}\u{308}\u{345}","\u{56}\u{308}\u{345}"],["\u{1e84}\u{345}","\u{57}\u{308}\u{345}","\u{1e84}\u{345}","\u{57}\u{308}\u{345}"],["\u{1e8c}\u{345}","\u{58}\u{308}\u{345}","\u{1e8c}\u{345}","\u{58}\u{308}\u{345}"],["\u{178}\u{345}","\u{59}\u{308}\u{345}","\u{178}\u{345}","\u{59}\u{308}\u{345}"],["\u{5a}\u{308}\u{345}","\u{5a}\u{308}\u{345}","\u{5a}\u{308}\u{345}","\u{5a}\u{308}\u{345}"],["\u{5b}\u{308}\u{345}","\u{5b}\u{308}\u{345}","\u{5b}\u{308}\u{345}","\u{5b}\u{308}\u{345}"],["\u{5c}\u{308}\u{345}","\u{5c}\u{308}\u{345}","\u{5c}\u{308}\u{345}","\u{5c}\u{308}\u{345}"],["\u{5d}\u{308}\u{345}","\u{5d}\u{308}\u{345}","\u{5d}\u{308}\u{345}","\u{5d}\u{308}\u{345}"],["\u{5e}\u{308}\u{345}","\u{5e}\u{308}\u{345}","\u{5e}\u{308}\u{345}","\u{5e}\u{308}\u{345}"],["\u{5f}\u{308}\u{345}","\u{5f}\u{308}\u{345}","\u{5f}\u{308}\u{345}","\u{5f}\u{308}\u{345}"],["\u{60}\u{308}\u{345}","\u{60}\u{308}\u{345}","\u{60}\u{308}\u{345}","\u{60}\u{308}\u{345}"],["\u{e4}\u{345}","\u{61}\u{308}\u{345}","\u{e4}\u{345}","\u{61}\u{308}\u{345}"],["\u{62}\u{308}\u{345}","\u{62}\u{308}\u{345}","\u{62}\u{308}\u{345}","\u{62}\u{308}\u{345}"],["\u{63}\u{308}\u{345}","\u{63}\u{308}\u{345}","\u{63}\u{308}\u{345}","\u{63}\u{308}\u{345}"],["\u{64}\u{308}\u{345}","\u{64}\u{308}\u{345}","\u{64}\u{308}\u{345}","\u{64}\u{308}\u{345}"],["\u{eb}\u{345}","\u{65}\u{308}\u{345}","\u{eb}\u{345}","\u{65}\u{308}\u{345}"],["\u{66}\u{308}\u{345}","\u{66}\u{308}\u{345}","\u{66}\u{308}\u{345}","\u{66}\u{308}\u{345}"],["\u{67}\u{308}\u{345}","\u{67}\u{308}\u{345}","\u{67}\u{308}\u{345}","\u{67}\u{308}\u{345}"],["\u{1e27}\u{345}","\u{68}\u{308}\u{345}","\u{1e27}\u{345}","\u{68}\u{308}\u{345}"],["\u{ef}\u{345}","\u{69}\u{308}\u{345}","\u{ef}\u{345}","\u{69}\u{308}\u{345}"],["\u{6a}\u{308}\u{345}","\u{6a}\u{308}\u{345}","\u{6a}\u{308}\u{345}","\u{6a}\u{308}\u{345}"],["\u{6b}\u{308}\u{345}","\u{6b}\u{308}\u{345}","\u{6b}\u{308}\u{345}","\u{6b}\u{308}\u{345}"],["\u{6c}\u{308}\u{345}","\u{6c}\u{308}\u{345}","\u{6c}\u{308}\u{345}","\u{6c}\u{308}\u{345}"],["\u{6d}\u{308}\u{345}","\u{6d}\u{308}\u{345}","\u{6d}\u{308}\u{345}","\u{6d}\u{308}\u{345}"],["\u{6e}\u{308}\u{345}","\u{6e}\u{308}\u{345}","\u{6e}\u{308}\u{345}","\u{6e}\u{308}\u{345}"],["\u{f6}\u{345}","\u{6f}\u{308}\u{345}","\u{f6}\u{345}","\u{6f}\u{308}\u{345}"],["\u{70}\u{308}\u{345}","\u{70}\u{308}\u{345}","\u{70}\u{308}\u{345}","\u{70}\u{308}\u{345}"],["\u{71}\u{308}\u{345}","\u{71}\u{308}\u{345}","\u{71}\u{308}\u{345}","\u{71}\u{308}\u{345}"],["\u{72}\u{308}\u{345}","\u{72}\u{308}\u{345}","\u{72}\u{308}\u{345}","\u{72}\u{308}\u{345}"],["\u{73}\u{308}\u{345}","\u{73}\u{308}\u{345}","\u{73}\u{308}\u{345}","\u{73}\u{308}\u{345}"],["\u{1e97}\u{345}","\u{74}\u{308}\u{345}","\u{1e97}\u{345}","\u{74}\u{308}\u{345}"],["\u{fc}\u{345}","\u{75}\u{308}\u{345}","\u{fc}\u{345}","\u{75}\u{308}\u{345}"],["\u{76}\u{308}\u{345}","\u{76}\u{308}\u{345}","\u{76}\u{308}\u{345}","\u{76}\u{308}\u{345}"],["\u{1e85}\u{345}","\u{77}\u{308}\u{345}","\u{1e85}\u{345}","\u{77}\u{308}\u{345}"],["\u{1e8d}\u{345}","\u{78}\u{308}\u{345}","\u{1e8d}\u{345}","\u{78}\u{308}\u{345}"],["\u{ff}\u{345}","\u{79}\u{308}\u{345}","\u{ff}\u{345}","\u{79}\u{308}\u{345}"],["\u{7a}\u{308}\u{345}","\u{7a}\u{308}\u{345}","\u{7a}\u{308}\u{345}","\u{7a}\u{308}\u{345}"]],
[["\u{1ea0}\u{345}","\u{41}\u{323}\u{345}","\u{1ea0}\u{345}","\u{41}\u{323}\u{345}"],["\u{1e04}\u{345}","\u{42}\u{323}\u{345}","\u{1e04}\u{345}","\u{42}\u{323}\u{345}"],["\u{43}\u{323}\u{345}","\u{43}\u{323}\u{345}","\u{43}\u{323}\u{345}","\u{43}\u{323}\u{345}"],["\u{1e0c}\u{345}","\u{44}\u{323}\u{345}","\u{1e0c}\u{345}","\u{44}\u{323}\u{345}"],["\u{1eb8}\u{345}","\u{45}\u{323}\u{345}","\u{1eb8}\u{345}","\u{45}\u{323}\u{345}"],["\u{46}\u{323}\u{345}","\u{46}\u{323}\u{345}","\u{46}\u{323}\u{345}","\u{46}\u{323}\u{345}"],["\u{47}\u{323}\u{345}","\u{47}\u{323}\u{345}","\u{47}\u{323}\u{345}","\u{47}\u{323}\u{345}"],["\u{1e24}\u{345}","\u{48}\u{323}\u{345}","\u{1e24}\u{345}","\u{48}\u{323}\u{345}"],["\u{1eca}\u{345}","\u{49}\u{323}\u{345}","\u{1eca}\u{345}","\u{49}\u{323}\u{345}"],["\u{4a}\u{323}\u{345}","\u{4a}\u{323}\u{345}","\u{4a}\u{323}\u{345}","\u{4a}\u{323}\u{345}"],["\u{1e32}\u{345}","\u{4b}\u{323}\u{345}","\u{1e32}\u{345}","\u{4b}\u{323}\u{345}"],["\u{1e36}\u{345}","\u{4c}\u{323}\u{345}","\u{1e36}\u{345}","\u{4c}\u{323}\u{345}"],["\u{1e42}\u{345}","\u{4d}\u{323}\u{345}","\u{1e42}\u{345}","\u{4d}\u{323}\u{345}"],["\u{1e46}\u{345}","\u{4e}\u{323}\u{345}","\u{1e46}\u{345}","\u{4e}\u{323}\u{345}"],["\u{1ecc}\u{345}","\u{4f}\u{323}\u{345}","\u{1ecc}\u{345}","\u{4f}\u{323}\u{345}"],["\u{50}\u{323}\u{345}","\u{50}\u{323}\u{345}","\u{50}\u{323}\u{345}","\u{50}\u{323}\u{345}"],["\u{51}\u{323}\u{345}","\u{51}\u{323}\u{345}","\u{51}\u{323}\u{345}","\u{51}\u{323}\u{345}"],["\u{1e5a}\u{345}","\u{52}\u{323}\u{345}","\u{1e5a}\u{345}","\u{52}\u{323}\u{345}"],["\u{1e62}\u{345}","\u{53}\u{323}\u{345}","\u{1e62}\u{345}","\u{53}\u{323}\u{345}"],["\u{1e6c}\u{345}","\u{54}\u{323}\u{345}","\u{1e6c}\u{345}","\u{54}\u{323}\u{345}"],["\u{1ee4}\u{345}","\u{55}\u{323}\u{345}","\u{1ee4}\u{345}","\u{55}\u{323}\u{345}"],["\u{1e7e}\u{345}","\u{56}\u{323}\u{345}","\u{1e7e}\u{345}","\u{56}\u{323}\u{345}"],["\u{1e88}\u{345}","\u{57}\u{323}\u{345}","\u{1e88}\u{345}","\u{57}\u{323}\u{345}"],["\u{58}\u{323}\u{345}","\u{58}\u{323}\u{345}","\u{58}\u{323}\u{345}","\u{58}\u{323}\u{345}"],["\u{1ef4}\u{345}","\u{59}\u{323}\u{345}","\u{1ef4}\u{345}","\u{59}\u{323}\u{345}"],["\u{1e92}\u{345}","\u{5a}\u{323}\u{345}","\u{1e92}\u{345}","\u{5a}\u{323}\u{345}"],["\u{5b}\u{323}\u{345}","\u{5b}\u{323}\u{345}","\u{5b}\u{323}\u{345}","\u{5b}\u{323}\u{345}"],["\u{5c}\u{323}\u{345}","\u{5c}\u{323}\u{345}","\u{5c}\u{323}\u{345}","\u{5c}\u{323}\u{345}"],["\u{5d}\u{323}\u{345}","\u{5d}\u{323}\u{345}","\u{5d}\u{323}\u{345}","\u{5d}\u{323}\u{345}"],["\u{5e}\u{323}\u{345}","\u{5e}\u{323}\u{345}","\u{5e}\u{323}\u{345}","\u{5e}\u{323}\u{345}"],["\u{5f}\u{323}\u{345}","\u{5f}\u{323}\u{345}","\u{5f}\u{323}\u{345}","\u{5f}\u{323}\u{345}"],["\u{60}\u{323}\u{345}","\u{60}\u{323}\u{345}","\u{60}\u{323}\u{345}","\u{60}\u{323}\u{345}"],["\u{1ea1}\u{345}","\u{61}\u{323}\u{345}","\u{1ea1}\u{345}","\u{61}\u{323}\u{345}"],["\u{1e05}\u{345}","\u{62}\u{323}\u{345}","\u{1e05}\u{345}","\u{62}\u{323}\u{345}"],["\u{63}\u{323}\u{345}","\u{63}\u{323}\u{345}","\u{63}\u{323}\u{345}","\u{63}\u{323}\u{345}"],["\u{1e0d}\u{345}","\u{64}\u{323}\u{345}","\u{1e0d}\u{345}","\u{64}\u{323}\u{345}"],["\u{1eb9}\u{345}","\u{65}\u{323}\u{345}","\u{1eb9}\u{345}","\u{65}\u{323}\u{345}"],["\u{66}\u{323}\u{345}","\u{66}\u{323}\u{345}","\u{66}\u{323}\u{345}","\u{66}\u{323}\u{345}"],["\u{67}\u{323}\u{345}","\u{67}\u{323}\u{345}","\u{67}\u{323}\u{345}","\u{67}\u{323}\u{345}"],["\u{1e25}\u{345}","\u{68}\u{323}\u{345}","\u{1e25}\u{345}","\u{68}\u{323}\u{345}"],["\u{1ecb}\u{345}","\u{69}\u{323}\u{345}","\u{1ecb}\u{345}","\u{69}\u{323}\u{345}"],["\u{6a}\u{323}\u{345}","\u{6a}\u{323}\u{345}","\u{6a}\u{323}\u{345}","\u{6a}\u{323}\u{345}"],["\u{1e33}\u{345}","\u{6b}\u{323}\u{345}","\u{1e33}\u{345}","\u{6b}\u{323}\u{345}"],["\u{1e37}\u{345}","\u{6c}\u{323}\u{345}","\u{1e37}\u{345}","\u{6c}\u{323}\u{345}"],["\u{1e43}\u{345}","\u{6d}\u{323}\u{345}","\u{1e43}\u{345}","\u{6d}\u{323}\u{345}"],["\u{1e47}\u{345}","\u{6e}\u{323}\u{345}","\u{1e47}\u{345}","\u{6e}\u{323}\u{345}"],["\u{1ecd}\u{345}","\u{6f}\u{323}\u{345}","\u{1ecd}\u{345}","\u{6f}\u{323}\u{345}"],["\u{70}\u{323}\u{345}","\u{70}\u{323}\u{345}","\u{70}\u{323}\u{345}","\u{70}\u{323}\u{345}"],["\u{71}\u{323}\u{345}","\u{71}\u{323}\u{345}","\u{71}\u{323}\u{345}","\u{71}\u{323}\u{345}"],["\u{1e5b}\u{345}","\u{72}\u{323}\u{345}","\u{1e5b}\u{345}","\u{72}\u{323}\u{345}"],["\u{1e63}\u{345}","\u{73}\u{323}\u{345}","\u{1e63}\u{345}","\u{73}\u{323}\u{345}"],["\u{1e6d}\u{345}","\u{74}\u{323}\u{345}","\u{1e6d}\u{345}","\u{74}\u{323}\u{345}"],["\u{1ee5}\u{345}","\u{75}\u{323}\u{345}","\u{1ee5}\u{345}","\u{75}\u{323}\u{345}"],["\u{1e7f}\u{345}","\u{76}\u{323}\u{345}","\u{1e7f}\u{345}","\u{76}\u{323}\u{345}"],["\u{1e89}\u{345}","\u{77}\u{323}\u{345}","\u{1e89}\u{345}","\u{77}\u{323}\u{345}"],["\u{78}\u{323}\u{345}","\u{78}\u{323}\u{345}","\u{78}\u{323}\u{345}","\u{78}\u{323}\u{345}"],["\u{1ef5}\u{345}","\u{79}\u{323}\u{345}","\u{1ef5}\u{345}","\u{79}\u{323}\u{345}"],["\u{1e93}\u{345}","\u{7a}\u{323}\u{345}","\u{1e93}\u{345}","\u{7a}\u{323}\u{345}"]],
[["\u{41}\u{327}\u{345}","\u{41}\u{327}\u{345}","\u{41}\u{327}\u{345}","\u{41}\u{327}\u{345}"],["\u{42}\u{327}\u{345}","\u{42}\u{327}\u{345}","\u{42}\u{327}\u{345}","\u{42}\u{327}\u{345}"],["\u{c7}\u{345}","\u{43}\u{327}\u{345}","\u{c7}\u{345}","\u{43}\u{327}\u{345}"],["\u{1e10}\u{345}","\u{44}\u{327}\u{345}","\u{1e10}\u{345}","\u{44}\u{327}\u{345}"],["\u{228}\u{345}","\u{45}\u{327}\u{345}","\u{228}\u{345}","\u{45}\u{327}\u{345}"],["\u{46}\u{327}\u{345}","\u{46}\u{327}\u{345}","\u{46}\u{327}\u{345}","\u{46}\u{327}\u{345}"],["\u{122}\u{345}","\u{47}\u{327}\u{345}","\u{122}\u{345}","\u{47}\u{327}\u{345}"],["\u{1e28}\u{345}","\u{48}\u{327}\u{345}","\u{1e28}\u{345}","\u{48}\u{327}\u{345}"],["\u{49}\u{327}\u{345}","\u{49}\u{327}\u{345}","\u{49}\u{327}\u{345}","\u{49}\u{327}\u{345}"],["\u{4a}\u{327}\u{345}","\u{4a}\u{327}\u{345}","\u{4a}\u{327}\u{345}","\u{4a}\u{327}\u{345}"],["\u{136}\u{345}","\u{4b}\u{327}\u{345}","\u{136}\u{345}","\u{4b}\u{327}\u{345}"],["\u{13b}\u{345}","\u{4c}\u{327}\u{345}","\u{13b}\u{345}","\u{4c}\u{327}\u{345}"],["\u{4d}\u{327}\u{345}","\u{4d}\u{327}\u{345}","\u{4d}\u{327}\u{345}","\u{4d}\u{327}\u{345}"],["\u{145}\u{345}","\u{4e}\u{327}\u{345}","\u{145}\u{345}","\u{4e}\u{327}\u{345}"],["\u{4f}\u{327}\u{345}","\u{4f}\u{327}\u{345}","\u{4f}\u{327}\u{345}","\u{4f}\u{327}\u{345}"],["\u{50}\u{327}\u{345}","\u{50}\u{327}\u{345}","\u{50}\u{327}\u{345}","\u{50}\u{327}\u{345}"],["\u{51}\u{327}\u{345}","\u{51}\u{327}\u{345}","\u{51}\u{327}\u{345}","\u{51}\u{327}\u{345}"],["\u{156}\u{345}","\u{52}\u{327}\u{345}","\u{156}\u{345}","\u{52}\u{327}\u{345}"],["\u{15e}\u{345}","\u{53}\u{327}\u{345}","\u{15e}\u{345}","\u{53}\u{327}\u{345}"],["\u{162}\u{345}","\u{54}\u{327}\u{345}","\u{162}\u{345}","\u{54}\u{327}\u{345}"],["\u{55}\u{327}\u{345}","\u{55}\u{327}\u{345}","\u{55}\u{327}\u{345}","\u{55}\u{327}\u{345}"],["\u{56}\u{327}\u{345}","\u{56}\u{327}\u{345}","\u{56}\u{327}\u{345}","\u{56}\u{327}\u{345}"],["\u{57}\u{327}\u{345}","\u{57}\u{327}\u{345}","\u{57}\u{327}\u{345}","\u{57}\u{327}\u{345}"],["\u{58}\u{327}\u{345}","\u{58}\u{327}\u{345}","\u{58}\u{327}\u{345}","\u{58}\u{327}\u{345}"],["\u{59}\u{327}\u{345}","\u{59}\u{327}\u{345}","\u{59}\u{327}\u{345}","\u{59}\u{327}\u{345}"],["\u{5a}\u{327}\u{345}","\u{5a}\u{327}\u{345}","\u{5a}\u{327}\u{345}","\u{5a}\u{327}\u{345}"],["\u{5b}\u{327}\u{345}","\u{5b}\u{327}\u{345}","\u{5b}\u{327}\u{345}","\u{5b}\u{327}\u{345}"],["\u{5c}\u{327}\u{345}","\u{5c}\u{327}\u{345}","\u{5c}\u{327}\u{345}","\u{5c}\u{327}\u{345}"],["\u{5d}\u{327}\u{345}","\u{5d}\u{327}\u{345}","\u{5d}\u{327}\u{345}","\u{5d}\u{327}\u{345}"],["\u{5e}\u{327}\u{345}","\u{5e}\u{327}\u{345}","\u{5e}\u{327}\u{345}","\u{5e}\u{327}\u{345}"],["\u{5f}\u{327}\u{345}","\u{5f}\u{327}\u{345}","\u{5f}\u{327}\u{345}","\u{5f}\u{327}\u{345}"],["\u{60}\u{327}\u{345}","\u{60}\u{327}\u{345}","\u{60}\u{327}\u{345}","\u{60}\u{327}\u{345}"],["\u{61}\u{327}\u{345}","\u{61}\u{327}\u{345}","\u{61}\u{327}\u{345}","\u{61}\u{327}\u{345}"],["\u{62}\u{327}\u{345}","\u{62}\u{327}\u{345}","\u{62}\u{327}\u{345}","\u{62}\u{327}\u{345}"],["\u{e7}\u{345}","\u{63}\u{327}\u{345}","\u{e7}\u{345}","\u{63}\u{327}\u{345}"],["\u{1e11}\u{345}","\u{64}\u{327}\u{345}","\u{1e11}\u{345}","\u{64}\u{327}\u{345}"],["\u{229}\u{345}","\u{65}\u{327}\u{345}","\u{229}\u{345}","\u{65}\u{327}\u{345}"],["\u{66}\u{327}\u{345}","\u{66}\u{327}\u{345}","\u{66}\u{327}\u{345}","\u{66}\u{327}\u{345}"],["\u{123}\u{345}","\u{67}\u{327}\u{345}","\u{123}\u{345}","\u{67}\u{327}\u{345}"],["\u{1e29}\u{345}","\u{68}\u{327}\u{345}","\u{1e29}\u{345}","\u{68}\u{327}\u{345}"],["\u{69}\u{327}\u{345}","\u{69}\u{327}\u{345}","\u{69}\u{327}\u{345}","\u{69}\u{327}\u{345}"],["\u{6a}\u{327}\u{345}","\u{6a}\u{327}\u{345}","\u{6a}\u{327}\u{345}","\u{6a}\u{327}\u{345}"],["\u{137}\u{345}","\u{6b}\u{327}\u{345}","\u{137}\u{345}","\u{6b}\u{327}\u{345}"],["\u{13c}\u{345}","\u{6c}\u{327}\u{345}","\u{13c}\u{345}","\u{6c}\u{327}\u{345}"],["\u{6d}\u{327}\u{345}","\u{6d}\u{327}\u{345}","\u{6d}\u{327}\u{345}","\u{6d}\u{327}\u{345}"],["\u{146}\u{345}","\u{6e}\u{327}\u{345}","\u{146}\u{345}","\u{6e}\u{327}\u{345}"],["\u{6f}\u{327}\u{345}","\u{6f}\u{327}\u{345}","\u{6f}\u{327}\u{345}","\u{6f}\u{327}\u{345}"],["\u{70}\u{327}\u{345}","\u{70}\u{327}\u{345}","\u{70}\u{327}\u{345}","\u{70}\u{327}\u{345}"],["\u{71}\u{327}\u{345}","\u{71}\u{327}\u{345}","\u{71}\u{327}\u{345}","\u{71}\u{327}\u{345}"],["\u{157}\u{345}","\u{72}\u{327}\u{345}","\u{157}\u{345}","\u{72}\u{327}\u{345}"],["\u{15f}\u{345}","\u{73}\u{327}\u{345}","\u{15f}\u{345}","\u{73}\u{327}\u{345}"],["\u{163}\u{345}","\u{74}\u{327}\u{345}","\u{163}\u{345}","\u{74}\u{327}\u{345}"],["\u{75}\u{327}\u{345}","\u{75}\u{327}\u{345}","\u{75}\u{327}\u{345}","\u{75}\u{327}\u{345}"],["\u{76}\u{327}\u{345}","\u{76}\u{327}\u{345}","\u{76}\u{327}\u{345}","\u{76}\u{327}\u{345}"],["\u{77}\u{327}\u{345}","\u{77}\u{327}\u{345}","\u{77}\u{327}\u{345}","\u{77}\u{327}\u{345}"],["\u{78}\u{327}\u{345}","\u{78}\u{327}\u{345}","\u{78}\u{327}\u{345}","\u{78}\u{327}\u{345}"],["\u{79}\u{327}\u{345}","\u{79}\u{327}\u{345}","\u{79}\u{327}\u{345}","\u{79}\u{327}\u{345}"],["\u{7a}\u{327}\u{345}","\u{7a}\u{327}\u{345}","\u{7a}\u{327}\u{345}","\u{7a}\u{327}\u{345}"]],
[["\u{41}\u{31b}\u{345}","\u{41}\u{31b}\u{345}","\u{41}\u{31b}\u{345}","\u{41}\u{31b}\u{345}"],["\u{42}\u{31b}\u{345}","\u{42}\u{31b}\u{345}","\u{42}\u{31b}\u{345}","\u{42}\u{31b}\u{345}"],["\u{43}\u{31b}\u{345}","\u{43}\u{31b}\u{345}","\u{43}\u{31b}\u{345}","\u{43}\u{31b}\u{345}"],["\u{44}\u{31b}\u{345}","\u{44}\u{31b}\u{345}","\u{44}\u{31b}\u{345}","\u{44}\u{31b}\u{345}"],["\u{45}\u{31b}\u{345}","\u{45}\u{31b}\u{345}","\u{45}\u{31b}\u{345}","\u{45}\u{31b}\u{345}"],["\u{46}\u{31b}\u{345}","\u{46}\u{31b}\u{345}","\u{46}\u{31b}\u{345}","\u{46}\u{31b}\u{345}"],["\u{47}\u{31b}\u{345}","\u{47}\u{31b}\u{345}","\u{47}\u{31b}\u{345}","\u{47}\u{31b}\u{345}"],["\u{48}\u{31b}\u{345}","\u{48}\u{31b}\u{345}","\u{48}\u{31b}\u{345}","\u{48}\u{31b}\u{345}"],["\u{49}\u{31b}\u{345}","\u{49}\u{31b}\u{345}","\u{49}\u{31b}\u{345}","\u{49}\u{31b}\u{345}"],["\u{4a}\u{31b}\u{345}","\u{4a}\u{31b}\u{345}","\u{4a}\u{31b}\u{345}","\u{4a}\u{31b}\u{345}"],["\u{4b}\u{31b}\u{345}","\u{4b}\u{31b}\u{345}","\u{4b}\u{31b}\u{345}","\u{4b}\u{31b}\u{345}"],["\u{4c}\u{31b}\u{345}","\u{4c}\u{31b}\u{345}","\u{4c}\u{31b}\u{345}","\u{4c}\u{31b}\u{345}"],["\u{4d}\u{31b}\u{345}","\u{4d}\u{31b}\u{345}","\u{4d}\u{31b}\u{345}","\u{4d}\u{31b}\u{345}"],["\u{4e}\u{31b}\u{345}","\u{4e}\u{31b}\u{345}","\u{4e}\u{31b}\u{345}","\u{4e}\u{31b}\u{345}"],["\u{1a0}\u{345}","\u{4f}\u{31b}\u{345}","\u{1a0}\u{345}","\u{4f}\u{31b}\u{345}"],["\u{50}\u{31b}\u{345}","\u{50}\u{31b}\u{345}","\u{50}\u{31b}\u{345}","\u{50}\u{31b}\u{345}"],["\u{51}\u{31b}\u{345}","\u{51}\u{31b}\u{345}","\u{51}\u{31b}\u{345}","\u{51}\u{31b}\u{345}"],["\u{52}\u{31b}\u{345}","\u{52}\u{31b}\u{345}","\u{52}\u{31b}\u{345}","\u{52}\u{31b}\u{345}"],["\u{53}\u{31b}\u{345}","\u{53}\u{31b}\u{345}","\u{53}\u{31b}\u{345}","\u{53}\u{31b}\u{345}"],["\u{54}\u{31b}\u{345}","\u{54}\u{31b}\u{345}","\u{54}\u{31b}\u{345}","\u{54}\u{31b}\u{345}"],["\u{1af}\u{345}","\u{55}\u{31b}\u{345}","\u{1af}\u{345}","\u{55}\u{31b}\u{345}"],["\u{56}\u{31b}\u{345}","\u{56}\u{31b}\u{345}","\u{56}\u{31b}\u{345}","\u{56}\u{31b}\u{345}"],["\u{57}\u{31b}\u{345}","\u{57}\u{31b}\u{345}","\u{57}\u{31b}\u{345}","\u{57}\u{31b}\u{345}"],["\u{58}\u{31b}\u{345}","\u{58}\u{31b}\u{345}","\u{58}\u{31b}\u{345}","\u{58}\u{31b}\u{345}"],["\u{59}\u{31b}\u{345}","\u{59}\u{31b}\u{345}","\u{59}\u{31b}\u{345}","\u{59}\u{31b}\u{345}"],["\u{5a}\u{31b}\u{345}","\u{5a}\u{31b}\u{345}","\u{5a}\u{31b}\u{345}","\u{5a}\u{31b}\u{345}"],["\u{5b}\u{31b}\u{345}","\u{5b}\u{31b}\u{345}","\u{5b}\u{31b}\u{345}","\u{5b}\u{31b}\u{345}"],["\u{5c}\u{31b}\u{345}","\u{5c}\u{31b}\u{345}","\u{5c}\u{31b}\u{345}","\u{5c}\u{31b}\u{345}"],["\u{5d}\u{31b}\u{345}","\u{5d}\u{31b}\u{345}","\u{5d}\u{31b}\u{345}","\u{5d}\u{31b}\u{345}"],["\u{5e}\u{31b}\u{345}","\u{5e}\u{31b}\u{345}","\u{5e}\u{31b}\u{345}","\u{5e}\u{31b}\u{345}"],["\u{5f}\u{31b}\u{345}","\u{5f}\u{31b}\u{345}","\u{5f}\u{31b}\u{345}","\u{5f}\u{31b}\u{345}"],["\u{60}\u{31b}\u{345}","\u{60}\u{31b}\u{345}","\u{60}\u{31b}\u{345}","\u{60}\u{31b}\u{345}"],["\u{61}\u{31b}\u{345}","\u{61}\u{31b}\u{345}","\u{61}\u{31b}\u{345}","\u{61}\u{31b}\u{345}"],["\u{62}\u{31b}\u{345}","\u{62}\u{31b}\u{345}","\u{62}\u{31b}\u{345}","\u{62}\u{31b}\u{345}"],["\u{63}\u{31b}\u{345}","\u{63}\u{31b}\u{345}","\u{63}\u{31b}\u{345}","\u{63}\u{31b}\u{345}"],["\u{64}\u{31b}\u{345}","\u{64}\u{31b}\u{345}","\u{64}\u{31b}\u{345}","\u{64}\u{31b}\u{345}"],["\u{65}\u{31b}\u{345}","\u{65}\u{31b}\u{345}","\u{65}\u{31b}\u{345}","\u{65}\u{31b}\u{345}"],["\u{66}\u{31b}\u{345}","\u{66}\u{31b}\u{345}","\u{66}\u{31b}\u{345}","\u{66}\u{31b}\u{345}"],["\u{67}\u{31b}\u{345}","\u{67}\u{31b}\u{345}","\u{67}\u{31b}\u{345}","\u{67}\u{31b}\u{345}"],["\u{68}\u{31b}\u{345}","\u{68}\u{31b}\u{345}","\u{68}\u{31b}\u{345}","\u{68}\u{31b}\u{345}"],["\u{69}\u{31b}\u{345}","\u{69}\u{31b}\u{345}","\u{69}\u{31b}\u{345}","\u{69}\u{31b}\u{345}"],["\u{6a}\u{31b}\u{345}","\u{6a}\u{31b}\u{345}","\u{6a}\u{31b}\u{345}","\u{6a}\u{31b}\u{345}"],["\u{6b}\u{31b}\u{345}","\u{6b}\u{31b}\u{345}","\u{6b}\u{31b}\u{345}","\u{6b}\u{31b}\u{345}"],["\u{6c}\u{31b}\u{345}","\u{6c}\u{31b}\u{345}","\u{6c}\u{31b}\u{345}","\u{6c}\u{31b}\u{345}"],["\u{6d}\u{31b}\u{345}","\u{6d}\u{31b}\u{345}","\u{6d}\u{31b}\u{345}","\u{6d}\u{31b}\u{345}"],["\u{6e}\u{31b}\u{345}","\u{6e}\u{31b}\u{345}","\u{6e}\u{31b}\u{345}","\u{6e}\u{31b}\u{345}"],["\u{1a1}\u{345}","\u{6f}\u{31b}\u{345}","\u{1a1}\u{345}","\u{6f}\u{31b}\u{345}"],["\u{70}\u{31b}\u{345}","\u{70}\u{31b}\u{345}","\u{70}\u{31b}\u{345}","\u{70}\u{31b}\u{345}"],["\u{71}\u{31b}\u{345}","\u{71}\u{31b}\u{345}","\u{71}\u{31b}\u{345}","\u{71}\u{31b}\u{345}"],["\u{72}\u{31b}\u{345}","\u{72}\u{31b}\u{345}","\u{72}\u{31b}\u{345}","\u{72}\u{31b}\u{345}"],["\u{73}\u{31b}\u{345}","\u{73}\u{31b}\u{345}","\u{73}\u{31b}\u{345}","\u{73}\u{31b}\u{345}"],["\u{74}\u{31b}\u{345}","\u{74}\u{31b}\u{345}","\u{74}\u{31b}\u{345}","\u{74}\u{31b}\u{345}"],["\u{1b0}\u{345}","\u{75}\u{31b}\u{345}","\u{1b0}\u{345}","\u{75}\u{31b}\u{345}"],["\u{76}\u{31b}\u{345}","\u{76}\u{31b}\u{345}","\u{76}\u{31b}\u{345}","\u{76}\u{31b}\u{345}"],["\u{77}\u{31b}\u{345}","\u{77}\u{31b}\u{345}","\u{77}\u{31b}\u{345}","\u{77}\u{31b}\u{345}"],["\u{78}\u{31b}\u{345}","\u{78}\u{31b}\u{345}","\u{78}\u{31b}\u{345}","\u{78}\u{31b}\u{345}"],["\u{79}\u{31b}\u{345}","\u{79}\u{31b}\u{345}","\u{79}\u{31b}\u{345}","\u{79}\u{31b}\u{345}"],["\u{7a}\u{31b}\u{345}","\u{7a}\u{31b}\u{345}","\u{7a}\u{31b}\u{345}","\u{7a}\u{31b}\u{345}"]],
[["\u{41}\u{345}\u{345}","\u{41}\u{345}\u{345}","\u{41}\u{345}\u{345}","\u{41}\u{345}\u{345}"],["\u{42}\u{345}\u{345}","\u{42}\u{345}\u{345}","\u{42}\u{345}\u{345}","\u{42}\u{345}\u{345}"],["\u{43}\u{345}\u{345}","\u{43}\u{345}\u{345}","\u{43}\u{345}\u{345}","\u{43}\u{345}\u{345}"],["\u{44}\u{345}\u{345}","\u{44}\u{345}\u{345}","\u{44}\u{345}\u{345}","\u{44}\u{345}\u{345}"],["\u{45}\u{345}\u{345}","\u{45}\u{345}\u{345}","\u{45}\u{345}\u{345}","\u{45}\u{345}\u{345}"],["\u{46}\u{345}\u{345}","\u{46}\u{345}\u{345}","\u{46}\u{345}\u{345}","\u{46}\u{345}\u{345}"],["\u{47}\u{345}\u{345}","\u{47}\u{345}\u{345}","\u{47}\u{345}\u{345}","\u{47}\u{345}\u{345}"],["\u{48}\u{345}\u{345}","\u{48}\u{345}\u{345}","\u{48}\u{345}\u{345}","\u{48}\u{345}\u{345}"],["\u{49}\u{345}\u{345}","\u{49}\u{345}\u{345}","\u{49}\u{345}\u{345}","\u{49}\u{345}\u{345}"],["\u{4a}\u{345}\u{345}","\u{4a}\u{345}\u{345}","\u{4a}\u{345}\u{345}","\u{4a}\u{345}\u{345}"],["\u{4b}\u{345}\u{345}","\u{4b}\u{345}\u{345}","\u{4b}\u{345}\u{345}","\u{4b}\u{345}\u{345}"],["\u{4c}\u{345}\u{345}","\u{4c}\u{345}\u{345}","\u{4c}\u{345}\u{345}","\u{4c}\u{345}\u{345}"],["\u{4d}\u{345}\u{345}","\u{4d}\u{345}\u{345}","\u{4d}\u{345}\u{345}","\u{4d}\u{345}\u{345}"],["\u{4e}\u{345}\u{345}","\u{4e}\u{345}\u{345}","\u{4e}\u{345}\u{345}","\u{4e}\u{345}\u{345}"],["\u{4f}\u{345}\u{345}","\u{4f}\u{345}\u{345}","\u{4f}\u{345}\u{345}","\u{4f}\u{345}\u{345}"],["\u{50}\u{345}\u{345}","\u{50}\u{345}\u{345}","\u{50}\u{345}\u{345}","\u{50}\u{345}\u{345}"],["\u{51}\u{345}\u{345}","\u{51}\u{345}\u{345}","\u{51}\u{345}\u{345}","\u{51}\u{345}\u{345}"],["\u{52}\u{345}\u{345}","\u{52}\u{345}\u{345}","\u{52}\u{345}\u{345}","\u{52}\u{345}\u{345}"],["\u{53}\u{345}\u{345}","\u{53}\u{345}\u{345}","\u{53}\u{345}\u{345}","\u{53}\u{345}\u{345}"],["\u{54}\u{345}\u{345}","\u{54}\u{345}\u{345}","\u{54}\u{345}\u{345}","\u{54}\u{345}\u{345}"],["\u{55}\u{345}\u{345}","\u{55}\u{345}\u{345}","\u{55}\u{345}\u{345}","\u{55}\u{345}\u{345}"],["\u{56}\u{345}\u{345}","\u{56}\u{345}\u{345}","\u{56}\u{345}\u{345}","\u{56}\u{345}\u{345}"],["\u{57}\u{345}\u{345}","\u{57}\u{345}\u{345}","\u{57}\u{345}\u{345}","\u{57}\u{345}\u{345}"],["\u{58}\u{345}\u{345}","\u{58}\u{345}\u{345}","\u{58}\u{345}\u{345}","\u{58}\u{345}\u{345}"],["\u{59}\u{345}\u{345}","\u{59}\u{345}\u{345}","\u{59}\u{345}\u{345}","\u{59}\u{345}\u{345}"],["\u{5a}\u{345}\u{345}","\u{5a}\u{345}\u{345}","\u{5a}\u{345}\u{345}","\u{5a}\u{345}\u{345}"],["\u{5b}\u{345}\u{345}","\u{5b}\u{345}\u{345}","\u{5b}\u{345}\u{345}","\u{5b}\u{345}\u{345}"],["\u{5c}\u{345}\u{345}","\u{5c}\u{345}\u{345}","\u{5c}\u{345}\u{345}","\u{5c}\u{345}\u{345}"],["\u{5d}\u{345}\u{345}","\u{5d}\u{345}\u{345}","\u{5d}\u{345}\u{345}","\u{5d}\u{345}\u{345}"],["\u{5e}\u{345}\u{345}","\u{5e}\u{345}\u{345}","\u{5e}\u{345}\u{345}","\u{5e}\u{345}\u{345}"],["\u{5f}\u{345}\u{345}","\u{5f}\u{345}\u{345}","\u{5f}\u{345}\u{345}","\u{5f}\u{345}\u{345}"],["\u{60}\u{345}\u{345}","\u{60}\u{345}\u{345}","\u{60}\u{345}\u{345}","\u{60}\u{345}\u{345}"],["\u{61}\u{345}\u{345}","\u{61}\u{345}\u{345}","\u{61}\u{345}\u{345}","\u{61}\u{345}\u{345}"],["\u{62}\u{345}\u{345}","\u{62}\u{345}\u{345}","\u{62}\u{345}\u{345}","\u{62}\u{345}\u{345}"],["\u{63}\u{345}\u{345}","\u{63}\u{345}\u{345}","\u{63}\u{345}\u{345}","\u{63}\u{345}\u{345}"],["\u{64}\u{345}\u{345}","\u{64}\u{345}\u{345}","\u{64}\u{345}\u{345}","\u{64}\u{345}\u{345}"],["\u{65}\u{345}\u{345}","\u{65}\u{345}\u{345}","\u{65}\u{345}\u{345}","\u{65}\u{345}\u{345}"],["\u{66}\u{345}\u{345}","\u{66}\u{345}\u{345}","\u{66}\u{345}\u{345}","\u{66}\u{345}\u{345}"],["\u{67}\u{345}\u{345}","\u{67}\u{345}\u{345}","\u{67}\u{345}\u{345}","\u{67}\u{345}\u{345}"],["\u{68}\u{345}\u{345}","\u{68}\u{345}\u{345}","\u{68}\u{345}\u{345}","\u{68}\u{345}\u{345}"],["\u{69}\u{345}\u{345}","\u{69}\u{345}\u{345}","\u{69}\u{345}\u{345}","\u{69}\u{345}\u{345}"],["\u{6a}\u{345}\u{345}","\u{6a}\u{345}\u{345}","\u{6a}\u{345}\u{345}","\u{6a}\u{345}\u{345}"],["\u{6b}\u{345}\u{345}","\u{6b}\u{345}\u{345}","\u{6b}\u{345}\u{345}","\u{6b}\u{345}\u{345}"],["\u{6c}\u{345}\u{345}","\u{6c}\u{345}\u{345}","\u{6c}\u{345}\u{345}","\u{6c}\u{345}\u{345}"],["\u{6d}\u{345}\u{345}","\u{6d}\u{345}\u{345}","\u{6d}\u{345}\u{345}","\u{6d}\u{345}\u{345}"],["\u{6e}\u{345}\u{345}","\u{6e}\u{345}\u{345}","\u{6e}\u{345}\u{345}","\u{6e}\u{345}\u{345}"],["\u{6f}\u{345}\u{345}","\u{6f}\u{345}\u{345}","\u{6f}\u{345}\u{345}","\u{6f}\u{345}\u{345}"],["\u{70}\u{345}\u{345}","\u{70}\u{345}\u{345}","\u{70}\u{345}\u{345}","\u{70}\u{345}\u{345}"],["\u{71}\u{345}\u{345}","\u{71}\u{345}\u{345}","\u{71}\u{345}\u{345}","\u{71}\u{345}\u{345}"],["\u{72}\u{345}\u{345}","\u{72}\u{345}\u{345}","\u{72}\u{345}\u{345}","\u{72}\u{345}\u{345}"],["\u{73}\u{345}\u{345}","\u{73}\u{345}\u{345}","\u{73}\u{345}\u{345}","\u{73}\u{345}\u{345}"],["\u{74}\u{345}\u{345}","\u{74}\u{345}\u{345}","\u{74}\u{345}\u{345}","\u{74}\u{345}\u{345}"],["\u{75}\u{345}\u{345}","\u{75}\u{345}\u{345}","\u{75}\u{345}\u{345}","\u{75}\u{345}\u{345}"],["\u{76}\u{345}\u{345}","\u{76}\u{345}\u{345}","\u{76}\u{345}\u{345}","\u{76}\u{345}\u{345}"],["\u{77}\u{345}\u{345}","\u{77}\u{345}\u{345}","\u{77}\u{345}\u{345}","\u{77}\u{345}\u{345}"],["\u{78}\u{345}\u{345}","\u{78}\u{345}\u{345}","\u{78}\u{345}\u{345}","\u{78}\u{345}\u{345}"],["\u{79}\u{345}\u{345}","\u{79}\u{345}\u{345}","\u{79}\u{345}\u{345}","\u{79}\u{345}\u{345}"],["\u{7a}\u{345}\u{345}","\u{7a}\u{345}\u{345}","\u{7a}\u{345}\u{345}","\u{7a}\u{345}\u{345}"]],
[["\u{41}\u{20d2}\u{345}","\u{41}\u{20d2}\u{345}","\u{41}\u{20d2}\u{345}","\u{41}\u{20d2}\u{345}"],["\u{42}\u{20d2}\u{345}","\u{42}\u{20d2}\u{345}","\u{42}\u{20d2}\u{345}","\u{42}\u{20d2}\u{345}"],["\u{43}\u{20d2}\u{345}","\u{43}\u{20d2}\u{345}","\u{43}\u{20d2}\u{345}","\u{43}\u{20d2}\u{345}"],["\u{44}\u{20d2}\u{345}","\u{44}\u{20d2}\u{345}","\u{44}\u{20d2}\u{345}","\u{44}\u{20d2}\u{345}"],["\u{45}\u{20d2}\u{345}","\u{45}\u{20d2}\u{345}","\u{45}\u{20d2}\u{345}","\u{45}\u{20d2}\u{345}"],["\u{46}\u{20d2}\u{345}","\u{46}\u{20d2}\u{345}","\u{46}\u{20d2}\u{345}","\u{46}\u{20d2}\u{345}"],["\u{47}\u{20d2}\u{345}","\u{47}\u{20d2}\u{345}","\u{47}\u{20d2}\u{345}","\u{47}\u{20d2}\u{345}"],["\u{48}\u{20d2}\u{345}","\u{48}\u{20d2}\u{345}","\u{48}\u{20d2}\u{345}","\u{48}\u{20d2}\u{345}"],["\u{49}\u{20d2}\u{345}","\u{49}\u{20d2}\u{345}","\u{49}\u{20d2}\u{345}","\u{49}\u{20d2}\u{345}"],["\u{4a}\u{20d2}\u{345}","\u{4a}\u{20d2}\u{345}","\u{4a}\u{20d2}\u{345}","\u{4a}\u{20d2}\u{345}"],["\u{4b}\u{20d2}\u{345}","\u{4b}\u{20d2}\u{345}","\u{4b}\u{20d2}\u{345}","\u{4b}\u{20d2}\u{345}"],["\u{4c}\u{20d2}\u{345}","\u{4c}\u{20d2}\u{345}","\u{4c}\u{20d2}\u{345}","\u{4c}\u{20d2}\u{345}"],["\u{4d}\u{20d2}\u{345}","\u{4d}\u{20d2}\u{345}","\u{4d}\u{20d2}\u{345}","\u{4d}\u{20d2}\u{345}"],["\u{4e}\u{20d2}\u{345}","\u{4e}\u{20d2}\u{345}","\u{4e}\u{20d2}\u{345}","\u{4e}\u{20d2}\u{345}"],["\u{4f}\u{20d2}\u{345}","\u{4f}\u{20d2}\u{345}","\u{4f}\u{20d2}\u{345}","\u{4f}\u{20d2}\u{345}"],["\u{50}\u{20d2}\u{345}","\u{50}\u{20d2}\u{345}","\u{50}\u{20d2}\u{345}","\u{50}\u{20d2}\u{345}"],["\u{51}\u{20d2}\u{345}","\u{51}\u{20d2}\u{345}","\u{51}\u{20d2}\u{345}","\u{51}\u{20d2}\u{345}"],["\u{52}\u{20d2}\u{345}","\u{52}\u{20d2}\u{345}","\u{52}\u{20d2}\u{345}","\u{52}\u{20d2}\u{345}"],["\u{53}\u{20d2}\u{345}","\u{53}\u{20d2}\u{345}","\u{53}\u{20d2}\u{345}","\u{53}\u{20d2}\u{345}"],["\u{54}\u{20d2}\u{345}","\u{54}\u{20d2}\u{345}","\u{54}\u{20d2}\u{345}","\u{54}\u{20d2}\u{345}"],["\u{55}\u{20d2}\u{345}","\u{55}\u{20d2}\u{345}","\u{55}\u{20d2}\u{345}","\u{55}\u{20d2}\u{345}"],["\u{56}\u{20d2}\u{345}","\u{56}\u{20d2}\u{345}","\u{56}\u{20d2}\u{345}","\u{56}\u{20d2}\u{345}"],["\u{57}\u{20d2}\u{345}","\u{57}\u{20d2}\u{345}","\u{57}\u{20d2}\u{345}","\u{57}\u{20d2}\u{345}"],["\u{58}\u{20d2}\u{345}","\u{58}\u{20d2}\u{345}","\u{58}\u{20d2}\u{345}","\u{58}\u{20d2}\u{345}"],["\u{59}\u{20d2}\u{345}","\u{59}\u{20d2}\u{345}","\u{59}\u{20d2}\u{345}","\u{59}\u{20d2}\u{345}"],["\u{5a}\u{20d2}\u{345}","\u{5a}\u{20d2}\u{345}","\u{5a}\u{20d2}\u{345}","\u{5a}\u{20d2}\u{345}"],["\u{5b}\u{20d2}\u{345}","\u{5b}\u{20d2}\u{345}","\u{5b}\u{20d2}\u{345}","\u{5b}\u{20d2}\u{345}"],["\u{5c}\u{20d2}\u{345}","\u{5c}\u{20d2}\u{345}","\u{5c}\u{20d2}\u{345}","\u{5c}\u{20d2}\u{345}"],["\u{5d}\u{20d2}\u{345}","\u{5d}\u{20d2}\u{345}","\u{5d}\u{20d2}\u{345}","\u{5d}\u{20d2}\u{345}"],["\u{5e}\u{20d2}\u{345}","\u{5e}\u{20d2}\u{345}","\u{5e}\u{20d2}\u{345}","\u{5e}\u{20d2}\u{345}"],["\u{5f}\u{20d2}\u{345}","\u{5f}\u{20d2}\u{345}","\u{5f}\u{20d2}\u{345}","\u{5f}\u{20d2}\u{345}"],["\u{60}\u{20d2}\u{345}","\u{60}\u{20d2}\u{345}","\u{60}\u{20d2}\u{345}","\u{60}\u{20d2}\u{345}"],["\u{61}\u{20d2}\u{345}","\u{61}\u{20d2}\u{345}","\u{61}\u{20d2}\u{345}","\u{61}\u{20d2}\u{345}"],["\u{62}\u{20d2}\u{345}","\u{62}\u{20d2}\u{345}","\u{62}\u{20d2}\u{345}","\u{62}\u{20d2}\u{345}"],["\u{63}\u{20d2}\u{345}","\u{63}\u{20d2}\u{345}","\u{63}\u{20d2}\u{345}","\u{63}\u{20d2}\u{345}"],["\u{64}\u{20d2}\u{345}","\u{64}\u{20d2}\u{345}","\u{64}\u{20d2}\u{345}","\u{64}\u{20d2}\u{345}"],["\u{65}\u{20d2}\u{345}","\u{65}\u{20d2}\u{345}","\u{65}\u{20d2}\u{345}","\u{65}\u{20d2}\u{345}"],["\u{66}\u{20d2}\u{345}","\u{66}\u{20d2}\u{345}","\u{66}\u{20d2}\u{345}","\u{66}\u{20d2}\u{345}"],["\u{67}\u{20d2}\u{345}","\u{67}\u{20d2}\u{345}","\u{67}\u{20d2}\u{345}","\u{67}\u{20d2}\u{345}"],["\u{68}\u{20d2}\u{345}","\u{68}\u{20d2}\u{345}","\u{68}\u{20d2}\u{345}","\u{68}\u{20d2}\u{345}"],["\u{69}\u{20d2}\u{345}","\u{69}\u{20d2}\u{345}","\u{69}\u{20d2}\u{345}","\u{69}\u{20d2}\u{345}"],["\u{6a}\u{20d2}\u{345}","\u{6a}\u{20d2}\u{345}","\u{6a}\u{20d2}\u{345}","\u{6a}\u{20d2}\u{345}"],["\u{6b}\u{20d2}\u{345}","\u{6b}\u{20d2}\u{345}","\u{6b}\u{20d2}\u{345}","\u{6b}\u{20d2}\u{345}"],["\u{6c}\u{20d2}\u{345}","\u{6c}\u{20d2}\u{345}","\u{6c}\u{20d2}\u{345}","\u{6c}\u{20d2}\u{345}"],["\u{6d}\u{20d2}\u{345}","\u{6d}\u{20d2}\u{345}","\u{6d}\u{20d2}\u{345}","\u{6d}\u{20d2}\u{345}"],["\u{6e}\u{20d2}\u{345}","\u{6e}\u{20d2}\u{345}","\u{6e}\u{20d2}\u{345}","\u{6e}\u{20d2}\u{345}"],["\u{6f}\u{20d2}\u{345}","\u{6f}\u{20d2}\u{345}","\u{6f}\u{20d2}\u{345}","\u{6f}\u{20d2}\u{345}"],["\u{70}\u{20d2}\u{345}","\u{70}\u{20d2}\u{345}","\u{70}\u{20d2}\u{345}","\u{70}\u{20d2}\u{345}"],["\u{71}\u{20d2}\u{345}","\u{71}\u{20d2}\u{345}","\u{71}\u{20d2}\u{345}","\u{71}\u{20d2}\u{345}"],["\u{72}\u{20d2}\u{345}","\u{72}\u{20d2}\u{345}","\u{72}\u{20d2}\u{345}","\u{72}\u{20d2}\u{345}"],["\u{73}\u{20d2}\u{345}","\u{73}\u{20d2}\u{345}","\u{73}\u{20d2}\u{345}","\u{73}\u{20d2}\u{345}"],["\u{74}\u{20d2}\u{345}","\u{74}\u{20d2}\u{345}","\u{74}\u{20d2}\u{345}","\u{74}\u{20d2}\u{345}"],["\u{75}\u{20d2}\u{345}","\u{75}\u{20d2}\u{345}","\u{75}\u{20d2}\u{345}","\u{75}\u{20d2}\u{345}"],["\u{76}\u{20d2}\u{345}","\u{76}\u{20d2}\u{345}","\u{76}\u{20d2}\u{345}","\u{76}\u{20d2}\u{345}"],["\u{77}\u{20d2}\u{345}","\u{77}\u{20d2}\u{345}","\u{77}\u{20d2}\u{345}","\u{77}\u{20d2}\u{345}"],["\u{78}\u{20d2}\u{345}","\u{78}\u{20d2}\u{345}","\u{78}\u{20d2}\u{345}","\u{78}\u{20d2}\u{345}"],["\u{79}\u{20d2}\u{345}","\u{79}\u{20d2}\u{345}","\u{79}\u{20d2}\u{345}","\u{79}\u{20d2}\u{345}"],["\u{7a}\u{20d2}\u{345}","\u{7a}\u{20d2}\u{345}","\u{7a}\u{20d2}\u{345}","\u{7a}\u{20d2}\u{345}"]],
[["\u{c0}\u{20d2}","\u{41}\u{20d2}\u{300}","\u{c0}\u{20d2}","\u{41}\u{20d2}\u{300}"],["\u{42}\u{20d2}\u{300}","\u{42}\u{20d2}\u{300}","\u{42}\u{20d2}\u{300}","\u{42}\u{20d2}\u{300}"],["\u{43}\u{20d2}\u{300}","\u{43}\u{20d2}\u{300}","\u{43}\u{20d2}\u{300}","\u{43}\u{20d2}\u{300}"],["\u{44}\u{20d2}\u{300}","\u{44}\u{20d2}\u{300}","\u{44}\u{20d2}\u{300}","\u{44}\u{20d2}\u{300}"],["\u{c8}\u{20d2}","\u{45}\u{20d2}\u{300}","\u{c8}\u{20d2}","\u{45}\u{20d2}\u{300}"],["\u{46}\u{20d2}\u{300}","\u{46}\u{20d2}\u{300}","\u{46}\u{20d2}\u{300}","\u{46}\u{20d2}\u{300}"],["\u{47}\u{20d2}\u{300}","\u{47}\u{20d2}\u{300}","\u{47}\u{20d2}\u{300}","\u{47}\u{20d2}\u{300}"],["\u{48}\u{20d2}\u{300}","\u{48}\u{20d2}\u{300}","\u{48}\u{20d2}\u{300}","\u{48}\u{20d2}\u{300}"],["\u{cc}\u{20d2}","\u{49}\u{20d2}\u{300}","\u{cc}\u{20d2}","\u{49}\u{20d2}\u{300}"],["\u{4a}\u{20d2}\u{300}","\u{4a}\u{20d2}\u{300}","\u{4a}\u{20d2}\u{300}","\u{4a}\u{20d2}\u{300}"],["\u{4b}\u{20d2}\u{300}","\u{4b}\u{20d2}\u{300}","\u{4b}\u{20d2}\u{300}","\u{4b}\u{20d2}\u{300}"],["\u{4c}\u{20d2}\u{300}","\u{4c}\u{20d2}\u{300}","\u{4c}\u{20d2}\u{300}","\u{4c}\u{20d2}\u{300}"],["\u{4d}\u{20d2}\u{300}","\u{4d}\u{20d2}\u{300}","\u{4d}\u{20d2}\u{300}","\u{4d}\u{20d2}\u{300}"],["\u{1f8}\u{20d2}","\u{4e}\u{20d2}\u{300}","\u{1f8}\u{20d2}","\u{4e}\u{20d2}\u{300}"],["\u{d2}\u{20d2}","\u{4f}\u{20d2}\u{300}","\u{d2}\u{20d2}","\u{4f}\u{20d2}\u{300}"],["\u{50}\u{20d2}\u{300}","\u{50}\u{20d2}\u{300}","\u{50}\u{20d2}\u{300}","\u{50}\u{20d2}\u{300}"],["\u{51}\u{20d2}\u{300}","\u{51}\u{20d2}\u{300}","\u{51}\u{20d2}\u{300}","\u{51}\u{20d2}\u{300}"],["\u{52}\u{20d2}\u{300}","\u{52}\u{20d2}\u{300}","\u{52}\u{20d2}\u{300}","\u{52}\u{20d2}\u{300}"],["\u{53}\u{20d2}\u{300}","\u{53}\u{20d2}\u{300}","\u{53}\u{20d2}\u{300}","\u{53}\u{20d2}\u{300}"],["\u{54}\u{20d2}\u{300}","\u{54}\u{20d2}\u{300}","\u{54}\u{20d2}\u{300}","\u{54}\u{20d2}\u{300}"],["\u{d9}\u{20d2}","\u{55}\u{20d2}\u{300}","\u{d9}\u{20d2}","\u{55}\u{20d2}\u{300}"],["\u{56}\u{20d2}\u{300}","\u{56}\u{20d2}\u{300}","\u{56}\u{20d2}\u{300}","\u{56}\u{20d2}\u{300}"],["\u{1e80}\u{20d2}","\u{57}\u{20d2}\u{300}","\u{1e80}\u{20d2}","\u{57}\u{20d2}\u{300}"],["\u{58}\u{20d2}\u{300}","\u{58}\u{20d2}\u{300}","\u{58}\u{20d2}\u{300}","\u{58}\u{20d2}\u{300}"],["\u{1ef2}\u{20d2}","\u{59}\u{20d2}\u{300}","\u{1ef2}\u{20d2}","\u{59}\u{20d2}\u{300}"],["\u{5a}\u{20d2}\u{300}","\u{5a}\u{20d2}\u{300}","\u{5a}\u{20d2}\u{300}","\u{5a}\u{20d2}\u{300}"],["\u{5b}\u{20d2}\u{300}","\u{5b}\u{20d2}\u{300}","\u{5b}\u{20d2}\u{300}","\u{5b}\u{20d2}\u{300}"],["\u{5c}\u{20d2}\u{300}","\u{5c}\u{20d2}\u{300}","\u{5c}\u{20d2}\u{300}","\u{5c}\u{20d2}\u{300}"],["\u{5d}\u{20d2}\u{300}","\u{5d}\u{20d2}\u{300}","\u{5d}\u{20d2}\u{300}","\u{5d}\u{20d2}\u{300}"],["\u{5e}\u{20d2}\u{300}","\u{5e}\u{20d2}\u{300}","\u{5e}\u{20d2}\u{300}","\u{5e}\u{20d2}\u{300}"],["\u{5f}\u{20d2}\u{300}","\u{5f}\u{20d2}\u{300}","\u{5f}\u{20d2}\u{300}","\u{5f}\u{20d2}\u{300}"],["\u{60}\u{20d2}\u{300}","\u{60}\u{20d2}\u{300}","\u{60}\u{20d2}\u{300}","\u{60}\u{20d2}\u{300}"],["\u{e0}\u{20d2}","\u{61}\u{20d2}\u{300}","\u{e0}\u{20d2}","\u{61}\u{20d2}\u{300}"],["\u{62}\u{20d2}\u{300}","\u{62}\u{20d2}\u{300}","\u{62}\u{20d2}\u{300}","\u{62}\u{20d2}\u{300}"],["\u{63}\u{20d2}\u{300}","\u{63}\u{20d2}\u{300}","\u{63}\u{20d2}\u{300}","\u{63}\u{20d2}\u{300}"],["\u{64}\u{20d2}\u{300}","\u{64}\u{20d2}\u{300}","\u{64}\u{20d2}\u{300}","\u{64}\u{20d2}\u{300}"],["\u{e8}\u{20d2}","\u{65}\u{20d2}\u{300}","\u{e8}\u{20d2}","\u{65}\u{20d2}\u{300}"],["\u{66}\u{20d2}\u{300}","\u{66}\u{20d2}\u{300}","\u{66}\u{20d2}\u{300}","\u{66}\u{20d2}\u{300}"],["\u{67}\u{20d2}\u{300}","\u{67}\u{20d2}\u{300}","\u{67}\u{20d2}\u{300}","\u{67}\u{20d2}\u{300}"],["\u{68}\u{20d2}\u{300}","\u{68}\u{20d2}\u{300}","\u{68}\u{20d2}\u{300}","\u{68}\u{20d2}\u{300}"],["\u{ec}\u{20d2}","\u{69}\u{20d2}\u{300}","\u{ec}\u{20d2}","\u{69}\u{20d2}\u{300}"],["\u{6a}\u{20d2}\u{300}","\u{6a}\u{20d2}\u{300}","\u{6a}\u{20d2}\u{300}","\u{6a}\u{20d2}\u{300}"],["\u{6b}\u{20d2}\u{300}","\u{6b}\u{20d2}\u{300}","\u{6b}\u{20d2}\u{300}","\u{6b}\u{20d2}\u{300}"],["\u{6c}\u{20d2}\u{300}","\u{6c}\u{20d2}\u{300}","\u{6c}\u{20d2}\u{300}","\u{6c}\u{20d2}\u{300}"],["\u{6d}\u{20d2}\u{300}","\u{6d}\u{20d2}\u{300}","\u{6d}\u{20d2}\u{300}","\u{6d}\u{20d2}\u{300}"],["\u{1f9}\u{20d2}","\u{6e}\u{20d2}\u{300}","\u{1f9}\u{20d2}","\u{6e}\u{20d2}\u{300}"],["\u{f2}\u{20d2}","\u{6f}\u{20d2}\u{300}","\u{f2}\u{20d2}","\u{6f}\u{20d2}\u{300}"],["\u{70}\u{20d2}\u{300}","\u{70}\u{20d2}\u{300}","\u{70}\u{20d2}\u{300}","\u{70}\u{20d2}\u{300}"],["\u{71}\u{20d2}\u{300}","\u{71}\u{20d2}\u{300}","\u{71}\u{20d2}\u{300}","\u{71}\u{20d2}\u{300}"],["\u{72}\u{20d2}\u{300}","\u{72}\u{20d2}\u{300}","\u{72}\u{20d2}\u{300}","\u{72}\u{20d2}\u{300}"],["\u{73}\u{20d2}\u{300}","\u{73}\u{20d2}\u{300}","\u{73}\u{20d2}\u{300}","\u{73}\u{20d2}\u{300}"],["\u{74}\u{20d2}\u{300}","\u{74}\u{20d2}\u{300}","\u{74}\u{20d2}\u{300}","\u{74}\u{20d2}\u{300}"],["\u{f9}\u{20d2}","\u{75}\u{20d2}\u{300}","\u{f9}\u{20d2}","\u{75}\u{20d2}\u{300}"],["\u{76}\u{20d2}\u{300}","\u{76}\u{20d2}\u{300}","\u{76}\u{20d2}\u{300}","\u{76}\u{20d2}\u{300}"],["\u{1e81}\u{20d2}","\u{77}\u{20d2}\u{300}","\u{1e81}\u{20d2}","\u{77}\u{20d2}\u{300}"],["\u{78}\u{20d2}\u{300}","\u{78}\u{20d2}\u{300}","\u{78}\u{20d2}\u{300}","\u{78}\u{20d2}\u{300}"],["\u{1ef3}\u{20d2}","\u{79}\u{20d2}\u{300}","\u{1ef3}\u{20d2}","\u{79}\u{20d2}\u{300}"],["\u{7a}\u{20d2}\u{300}","\u{7a}\u{20d2}\u{300}","\u{7a}\u{20d2}\u{300}","\u{7a}\u{20d2}\u{300}"]],
[["\u{c1}\u{20d2}","\u{41}\u{20d2}\u{301}","\u{c1}\u{20d2}","\u{41}\u{20d2}\u{301}"],["\u{42}\u{20d2}\u{301}","\u{42}\u{20d2}\u{301}","\u{42}\u{20d2}\u{301}","\u{42}\u{20d2}\u{301}"],["\u{106}\u{20d2}","\u{43}\u{20d2}\u{301}","\u{106}\u{20d2}","\u{43}\u{20d2}\u{301}"],["\u{44}\u{20d2}\u{301}","\u{44}\u{20d2}\u{301}","\u{44}\u{20d2}\u{301}","\u{44}\u{20d2}\u{301}"],["\u{c9}\u{20d2}","\u{45}\u{20d2}\u{301}","\u{c9}\u{20d2}","\u{45}\u{20d2}\u{301}"],["\u{46}\u{20d2}\u{301}","\u{46}\u{20d2}\u{301}","\u{46}\u{20d2}\u{301}","\u{46}\u{20d2}\u{301}"],["\u{1f4}\u{20d2}","\u{47}\u{20d2}\u{301}","\u{1f4}\u{20d2}","\u{47}\u{20d2}\u{301}"],["\u{48}\u{20d2}\u{301}","\u{48}\u{20d2}\u{301}","\u{48}\u{20d2}\u{301}","\u{48}\u{20d2}\u{301}"],["\u{cd}\u{20d2}","\u{49}\u{20d2}\u{301}","\u{cd}\u{20d2}","\u{49}\u{20d2}\u{301}"],["\u{4a}\u{20d2}\u{301}","\u{4a}\u{20d2}\u{301}","\u{4a}\u{20d2}\u{301}","\u{4a}\u{20d2}\u{301}"],["\u{1e30}\u{20d2}","\u{4b}\u{20d2}\u{301}","\u{1e30}\u{20d2}","\u{4b}\u{20d2}\u{301}"],["\u{139}\u{20d2}","\u{4c}\u{20d2}\u{301}","\u{139}\u{20d2}","\u{4c}\u{20d2}\u{301}"],["\u{1e3e}\u{20d2}","\u{4d}\u{20d2}\u{301}","\u{1e3e}\u{20d2}","\u{4d}\u{20d2}\u{301}"],["\u{143}\u{20d2}","\u{4e}\u{20d2}\u{301}","\u{143}\u{20d2}","\u{4e}\u{20d2}\u{301}"],["\u{d3}\u{20d2}","\u{4f}\u{20d2}\u{301}","\u{d3}\u{20d2}","\u{4f}\u{20d2}\u{301}"],["\u{1e54}\u{20d2}","\u{50}\u{20d2}\u{301}","\u{1e54}\u{20d2}","\u{50}\u{20d2}\u{301}"],["\u{51}\u{20d2}\u{301}","\u{51}\u{20d2}\u{301}","\u{51}\u{20d2}\u{301}","\u{51}\u{20d2}\u{301}"],["\u{154}\u{20d2}","\u{52}\u{20d2}\u{301}","\u{154}\u{20d2}","\u{52}\u{20d2}\u{301}"],["\u{15a}\u{20d2}","\u{53}\u{20d2}\u{301}","\u{15a}\u{20d2}","\u{53}\u{20d2}\u{301}"],["\u{54}\u{20d2}\u{301}","\u{54}\u{20d2}\u{301}","\u{54}\u{20d2}\u{301}","\u{54}\u{20d2}\u{301}"],["\u{da}\u{20d2}","\u{55}\u{20d2}\u{301}","\u{da}\u{20d2}","\u{55}\u{20d2}\u{301}"],["\u{56}\u{20d2}\u{301}","\u{56}\u{20d2}\u{301}","\u{56}\u{20d2}\u{301}","\u{56}\u{20d2}\u{301}"],["\u{1e82}\u{20d2}","\u{57}\u{20d2}\u{301}","\u{1e82}\u{20d2}","\u{57}\u{20d2}\u{301}"],["\u{58}\u{20d2}\u{301}","\u{58}\u{20d2}\u{301}","\u{58}\u{20d2}\u{301}","\u{58}\u{20d2}\u{301}"],["\u{dd}\u{20d2}","\u{59}\u{20d2}\u{301}","\u{dd}\u{20d2}","\u{59}\u{20d2}\u{301}"],["\u{179}\u{20d2}","\u{5a}\u{20d2}\u{301}","\u{179}\u{20d2}","\u{5a}\u{20d2}\u{301}"],["\u{5b}\u{20d2}\u{301}","\u{5b}\u{20d2}\u{301}","\u{5b}\u{20d2}\u{301}","\u{5b}\u{20d2}\u{301}"],["\u{5c}\u{20d2}\u{301}","\u{5c}\u{20d2}\u{301}","\u{5c}\u{20d2}\u{301}","\u{5c}\u{20d2}\u{301}"],["\u{5d}\u{20d2}\u{301}","\u{5d}\u{20d2}\u{301}","\u{5d}\u{20d2}\u{301}","\u{5d}\u{20d2}\u{301}"],["\u{5e}\u{20d2}\u{301}","\u{5e}\u{20d2}\u{301}","\u{5e}\u{20d2}\u{301}","\u{5e}\u{20d2}\u{301}"],["\u{5f}\u{20d2}\u{301}","\u{5f}\u{20d2}\u{301}","\u{5f}\u{20d2}\u{301}","\u{5f}\u{20d2}\u{301}"],["\u{60}\u{20d2}\u{301}","\u{60}\u{20d2}\u{301}","\u{60}\u{20d2}\u{301}","\u{60}\u{20d2}\u{301}"],["\u{e1}\u{20d2}","\u{61}\u{20d2}\u{301}","\u{e1}\u{20d2}","\u{61}\u{20d2}\u{301}"],["\u{62}\u{20d2}\u{301}","\u{62}\u{20d2}\u{301}","\u{62}\u{20d2}\u{301}","\u{62}\u{20d2}\u{301}"],["\u{107}\u{20d2}","\u{63}\u{20d2}\u{301}","\u{107}\u{20d2}","\u{63}\u{20d2}\u{301}"],["\u{64}\u{20d2}\u{301}","\u{64}\u{20d2}\u{301}","\u{64}\u{20d2}\u{301}","\u{64}\u{20d2}\u{301}"],["\u{e9}\u{20d2}","\u{65}\u{20d2}\u{301}","\u{e9}\u{20d2}","\u{65}\u{20d2}\u{301}"],["\u{66}\u{20d2}\u{301}","\u{66}\u{20d2}\u{301}","\u{66}\u{20d2}\u{301}","\u{66}\u{20d2}\u{301}"],["\u{1f5}\u{20d2}","\u{67}\u{20d2}\u{301}","\u{1f5}\u{20d2}","\u{67}\u{20d2}\u{301}"],["\u{68}\u{20d2}\u{301}","\u{68}\u{20d2}\u{301}","\u{68}\u{20d2}\u{301}","\u{68}\u{20d2}\u{301}"],["\u{ed}\u{20d2}","\u{69}\u{20d2}\u{301}","\u{ed}\u{20d2}","\u{69}\u{20d2}\u{301}"],["\u{6a}\u{20d2}\u{301}","\u{6a}\u{20d2}\u{301}","\u{6a}\u{20d2}\u{301}","\u{6a}\u{20d2}\u{301}"],["\u{1e31}\u{20d2}","\u{6b}\u{20d2}\u{301}","\u{1e31}\u{20d2}","\u{6b}\u{20d2}\u{301}"],["\u{13a}\u{20d2}","\u{6c}\u{20d2}\u{301}","\u{13a}\u{20d2}","\u{6c}\u{20d2}\u{301}"],["\u{1e3f}\u{20d2}","\u{6d}\u{20d2}\u{301}","\u{1e3f}\u{20d2}","\u{6d}\u{20d2}\u{301}"],["\u{144}\u{20d2}","\u{6e}\u{20d2}\u{301}","\u{144}\u{20d2}","\u{6e}\u{20d2}\u{301}"],["\u{f3}\u{20d2}","\u{6f}\u{20d2}\u{301}","\u{f3}\u{20d2}","\u{6f}\u{20d2}\u{301}"],["\u{1e55}\u{20d2}","\u{70}\u{20d2}\u{301}","\u{1e55}\u{20d2}","\u{70}\u{20d2}\u{301}"],["\u{71}\u{20d2}\u{301}","\u{71}\u{20d2}\u{301}","\u{71}\u{20d2}\u{301}","\u{71}\u{20d2}\u{301}"],["\u{155}\u{20d2}","\u{72}\u{20d2}\u{301}","\u{155}\u{20d2}","\u{72}\u{20d2}\u{301}"],["\u{15b}\u{20d2}","\u{73}\u{20d2}\u{301}","\u{15b}\u{20d2}","\u{73}\u{20d2}\u{301}"],["\u{74}\u{20d2}\u{301}","\u{74}\u{20d2}\u{301}","\u{74}\u{20d2}\u{301}","\u{74}\u{20d2}\u{301}"],["\u{fa}\u{20d2}","\u{75}\u{20d2}\u{301}","\u{fa}\u{20d2}","\u{75}\u{20d2}\u{301}"],["\u{76}\u{20d2}\u{301}","\u{76}\u{20d2}\u{301}","\u{76}\u{20d2}\u{301}","\u{76}\u{20d2}\u{301}"],["\u{1e83}\u{20d2}","\u{77}\u{20d2}\u{301}","\u{1e83}\u{20d2}","\u{77}\u{20d2}\u{301}"],["\u{78}\u{20d2}\u{301}","\u{78}\u{20d2}\u{301}","\u{78}\u{20d2}\u{301}","\u{78}\u{20d2}\u{301}"],["\u{fd}\u{20d2}","\u{79}\u{20d2}\u{301}","\u{fd}\u{20d2}","\u{79}\u{20d2}\u{301}"],["\u{17a}\u{20d2}","\u{7a}\u{20d2}\u{301}","\u{17a}\u{20d2}","\u{7a}\u{20d2}\u{301}"]],
[["\u{c2}\u{20d2}","\u{41}\u{20d2}\u{302}","\u{c2}\u{20d2}","\u{41}\u{20d2}\u{302}"],["\u{42}\u{20d2}\u{302}","\u{42}\u{20d2}\u{302}","\u{42}\u{20d2}\u{302}","\u{42}\u{20d2}\u{302}"],["\u{108}\u{20d2}","\u{43}\u{20d2}\u{302}","\u{108}\u{20d2}","\u{43}\u{20d2}\u{302}"],["\u{44}\u{20d2}\u{302}","\u{44}\u{20d2}\u{302}","\u{44}\u{20d2}\u{302}","\u{44}\u{20d2}\u{302}"],["\u{ca}\u{20d2}","\u{45}\u{20d2}\u{302}","\u{ca}\u{20d2}","\u{45}\u{20d2}\u{302}"],["\u{46}\u{20d2}\u{302}","\u{46}\u{20d2}\u{302}","\u{46}\u{20d2}\u{302}","\u{46}\u{20d2}\u{302}"],["\u{11c}\u{20d2}","\u{47}\u{20d2}\u{302}","\u{11c}\u{20d2}","\u{47}\u{20d2}\u{302}"],["\u{124}\u{20d2}","\u{48}\u{20d2}\u{302}","\u{124}\u{20d2}","\u{48}\u{20d2}\u{302}"],["\u{ce}\u{20d2}","\u{49}\u{20d2}\u{302}","\u{ce}\u{20d2}","\u{49}\u{20d2}\u{302}"],["\u{134}\u{20d2}","\u{4a}\u{20d2}\u{302}","\u{134}\u{20d2}","\u{4a}\u{20d2}\u{302}"],["\u{4b}\u{20d2}\u{302}","\u{4b}\u{20d2}\u{302}","\u{4b}\u{20d2}\u{302}","\u{4b}\u{20d2}\u{302}"],["\u{4c}\u{20d2}\u{302}","\u{4c}\u{20d2}\u{302}","\u{4c}\u{20d2}\u{302}","\u{4c}\u{20d2}\u{302}"],["\u{4d}\u{20d2}\u{302}","\u{4d}\u{20d2}\u{302}","\u{4d}\u{20d2}\u{302}","\u{4d}\u{20d2}\u{302}"],["\u{4e}\u{20d2}\u{302}","\u{4e}\u{20d2}\u{302}","\u{4e}\u{20d2}\u{302}","\u{4e}\u{20d2}\u{302}"],["\u{d4}\u{20d2}","\u{4f}\u{20d2}\u{302}","\u{d4}\u{20d2}","\u{4f}\u{20d2}\u{302}"],["\u{50}\u{20d2}\u{302}","\u{50}\u{20d2}\u{302}","\u{50}\u{20d2}\u{302}","\u{50}\u{20d2}\u{302}"],["\u{51}\u{20d2}\u{302}","\u{51}\u{20d2}\u{302}","\u{51}\u{20d2}\u{302}","\u{51}\u{20d2}\u{302}"],["\u{52}\u{20d2}\u{302}","\u{52}\u{20d2}\u{302}","\u{52}\u{20d2}\u{302}","\u{52}\u{20d2}\u{302}"],["\u{15c}\u{20d2}","\u{53}\u{20d2}\u{302}","\u{15c}\u{20d2}","\u{53}\u{20d2}\u{302}"],["\u{54}\u{20d2}\u{302}","\u{54}\u{20d2}\u{302}","\u{54}\u{20d2}\u{302}","\u{54}\u{20d2}\u{302}"],["\u{db}\u{20d2}","\u{55}\u{20d2}\u{302}","\u{db}\u{20d2}","\u{55}\u{20d2}\u{302}"],["\u{56}\u{20d2}\u{302}","\u{56}\u{20d2}\u{302}","\u{56}\u{20d2}\u{302}","\u{56}\u{20d2}\u{302}"],["\u{174}\u{20d2}","\u{57}\u{20d2}\u{302}","\u{174}\u{20d2}","\u{57}\u{20d2}\u{302}"],["\u{58}\u{20d2}\u{302}","\u{58}\u{20d2}\u{302}","\u{58}\u{20d2}\u{302}","\u{58}\u{20d2}\u{302}"],["\u{176}\u{20d2}","\u{59}\u{20d2}\u{302}","\u{176}\u{20d2}","\u{59}\u{20d2}\u{302}"],["\u{1e90}\u{20d2}","\u{5a}\u{20d2}\u{302}","\u{1e90}\u{20d2}","\u{5a}\u{20d2}\u{302}"],["\u{5b}\u{20d2}\u{302}","\u{5b}\u{20d2}\u{302}","\u{5b}\u{20d2}\u{302}","\u{5b}\u{20d2}\u{302}"],["\u{5c}\u{20d2}\u{302}","\u{5c}\u{20d2}\u{302}","\u{5c}\u{20d2}\u{302}","\u{5c}\u{20d2}\u{302}"],["\u{5d}\u{20d2}\u{302}","\u{5d}\u{20d2}\u{302}","\u{5d}\u{20d2}\u{302}","\u{5d}\u{20d2}\u{302}"],["\u{5e}\u{20d2}\u{302}","\u{5e}\u{20d2}\u{302}","\u{5e}\u{20d2}\u{302}","\u{5e}\u{20d2}\u{302}"],["\u{5f}\u{20d2}\u{302}","\u{5f}\u{20d2}\u{302}","\u{5f}\u{20d2}\u{302}","\u{5f}\u{20d2}\u{302}"],["\u{60}\u{20d2}\u{302}","\u{60}\u{20d2}\u{302}","\u{60}\u{20d2}\u{302}","\u{60}\u{20d2}\u{302}"],["\u{e2}\u{20d2}","\u{61}\u{20d2}\u{302}","\u{e2}\u{20d2}","\u{61}\u{20d2}\u{302}"],["\u{62}\u{20d2}\u{302}","\u{62}\u{20d2}\u{302}","\u{62}\u{20d2}\u{302}","\u{62}\u{20d2}\u{302}"],["\u{109}\u{20d2}","\u{63}\u{20d2}\u{302}","\u{109}\u{20d2}","\u{63}\u{20d2}\u{302}"],["\u{64}\u{20d2}\u{302}","\u{64}\u{20d2}\u{302}","\u{64}\u{20d2}\u{302}","\u{64}\u{20d2}\u{302}"],["\u{ea}\u{20d2}","\u{65}\u{20d2}\u{302}","\u{ea}\u{20d2}","\u{65}\u{20d2}\u{302}"],["\u{66}\u{20d2}\u{302}","\u{66}\u{20d2}\u{302}","\u{66}\u{20d2}\u{302}","\u{66}\u{20d2}\u{302}"],["\u{11d}\u{20d2}","\u{67}\u{20d2}\u{302}","\u{11d}\u{20d2}","\u{67}\u{20d2}\u{302}"],["\u{125}\u{20d2}","\u{68}\u{20d2}\u{302}","\u{125}\u{20d2}","\u{68}\u{20d2}\u{302}"],["\u{ee}\u{20d2}","\u{69}\u{20d2}\u{302}","\u{ee}\u{20d2}","\u{69}\u{20d2}\u{302}"],["\u{135}\u{20d2}","\u{6a}\u{20d2}\u{302}","\u{135}\u{20d2}","\u{6a}\u{20d2}\u{302}"],["\u{6b}\u{20d2}\u{302}","\u{6b}\u{20d2}\u{302}","\u{6b}\u{20d2}\u{302}","\u{6b}\u{20d2}\u{302}"],["\u{6c}\u{20d2}\u{302}","\u{6c}\u{20d2}\u{302}","\u{6c}\u{20d2}\u{302}","\u{6c}\u{20d2}\u{302}"],["\u{6d}\u{20d2}\u{302}","\u{6d}\u{20d2}\u{302}","\u{6d}\u{20d2}\u{302}","\u{6d}\u{20d2}\u{302}"],["\u{6e}\u{20d2}\u{302}","\u{6e}\u{20d2}\u{302}","\u{6e}\u{20d2}\u{302}","\u{6e}\u{20d2}\u{302}"],["\u{f4}\u{20d2}","\u{6f}\u{20d2}\u{302}","\u{f4}\u{20d2}","\u{6f}\u{20d2}\u{302}"],["\u{70}\u{20d2}\u{302}","\u{70}\u{20d2}\u{302}","\u{70}\u{20d2}\u{302}","\u{70}\u{20d2}\u{302}"],["\u{71}\u{20d2}\u{302}","\u{71}\u{20d2}\u{302}","\u{71}\u{20d2}\u{302}","\u{71}\u{20d2}\u{302}"],["\u{72}\u{20d2}\u{302}","\u{72}\u{20d2}\u{302}","\u{72}\u{20d2}\u{302}","\u{72}\u{20d2}\u{302}"],["\u{15d}\u{20d2}","\u{73}\u{20d2}\u{302}","\u{15d}\u{20d2}","\u{73}\u{20d2}\u{302}"],["\u{74}\u{20d2}\u{302}","\u{74}\u{20d2}\u{302}","\u{74}\u{20d2}\u{302}","\u{74}\u{20d2}\u{302}"],["\u{fb}\u{20d2}","\u{75}\u{20d2}\u{302}","\u{fb}\u{20d2}","\u{75}\u{20d2}\u{302}"],["\u{76}\u{20d2}\u{302}","\u{76}\u{20d2}\u{302}","\u{76}\u{20d2}\u{302}","\u{76}\u{20d2}\u{302}"],["\u{175}\u{20d2}","\u{77}\u{20d2}\u{302}","\u{175}\u{20d2}","\u{77}\u{20d2}\u{302}"],["\u{78}\u{20d2}\u{302}","\u{78}\u{20d2}\u{302}","\u{78}\u{20d2}\u{302}","\u{78}\u{20d2}\u{302}"],["\u{177}\u{20d2}","\u{79}\u{20d2}\u{302}","\u{177}\u{20d2}","\u{79}\u{20d2}\u{302}"],["\u{1e91}\u{20d2}","\u{7a}\u{20d2}\u{302}","\u{1e91}\u{20d2}","\u{7a}\u{20d2}\u{302}"]],
[["\u{c3}\u{20d2}","\u{41}\u{20d2}\u{303}","\u{c3}\u{20d2}","\u{41}\u{20d2}\u{303}"],["\u{42}\u{20d2}\u{303}","\u{42}\u{20d2}\u{303}","\u{42}\u{20d2}\u{303}","\u{42}\u{20d2}\u{303}"],["\u{43}\u{20d2}\u{303}","\u{43}\u{20d2}\u{303}","\u{43}\u{20d2}\u{303}","\u{43}\u{20d2}\u{303}"],["\u{44}\u{20d2}\u{303}","\u{44}\u{20d2}\u{303}","\u{44}\u{20d2}\u{303}","\u{44}\u{20d2}\u{303}"],["\u{1ebc}\u{20d2}","\u{45}\u{20d2}\u{303}","\u{1ebc}\u{20d2}","\u{45}\u{20d2}\u{303}"],["\u{46}\u{20d2}\u{303}","\u{46}\u{20d2}\u{303}","\u{46}\u{20d2}\u{303}","\u{46}\u{20d2}\u{303}"],["\u{47}\u{20d2}\u{303}","\u{47}\u{20d2}\u{303}","\u{47}\u{20d2}\u{303}","\u{47}\u{20d2}\u{303}"],["\u{48}\u{20d2}\u{303}","\u{48}\u{20d2}\u{303}","\u{48}\u{20d2}\u{303}","\u{48}\u{20d2}\u{303}"],["\u{128}\u{20d2}","\u{49}\u{20d2}\u{303}","\u{128}\u{20d2}","\u{49}\u{20d2}\u{303}"],["\u{4a}\u{20d2}\u{303}","\u{4a}\u{20d2}\u{303}","\u{4a}\u{20d2}\u{303}","\u{4a}\u{20d2}\u{303}"],["\u{4b}\u{20d2}\u{303}","\u{4b}\u{20d2}\u{303}","\u{4b}\u{20d2}\u{303}","\u{4b}\u{20d2}\u{303}"],["\u{4c}\u{20d2}\u{303}","\u{4c}\u{20d2}\u{303}","\u{4c}\u{20d2}\u{303}","\u{4c}\u{20d2}\u{303}"],["\u{4d}\u{20d2}\u{303}","\u{4d}\u{20d2}\u{303}","\u{4d}\u{20d2}\u{303}","\u{4d}\u{20d2}\u{303}"],["\u{d1}\u{20d2}","\u{4e}\u{20d2}\u{303}","\u{d1}\u{20d2}","\u{4e}\u{20d2}\u{303}"],["\u{d5}\u{20d2}","\u{4f}\u{20d2}\u{303}","\u{d5}\u{20d2}","\u{4f}\u{20d2}\u{303}"],["\u{50}\u{20d2}\u{303}","\u{50}\u{20d2}\u{303}","\u{50}\u{20d2}\u{303}","\u{50}\u{20d2}\u{303}"],["\u{51}\u{20d2}\u{303}","\u{51}\u{20d2}\u{303}","\u{51}\u{20d2}\u{303}","\u{51}\u{20d2}\u{303}"],["\u{52}\u{20d2}\u{303}","\u{52}\u{20d2}\u{303}","\u{52}\u{20d2}\u{303}","\u{52}\u{20d2}\u{303}"],["\u{53}\u{20d2}\u{303}","\u{53}\u{20d2}\u{303}","\u{53}\u{20d2}\u{303}","\u{53}\u{20d2}\u{303}"],["\u{54}\u{20d2}\u{303}","\u{54}\u{20d2}\u{303}","\u{54}\u{20d2}\u{303}","\u{54}\u{20d2}\u{303}"],["\u{168}\u{20d2}","\u{55}\u{20d2}\u{303}","\u{168}\u{20d2}","\u{55}\u{20d2}\u{303}"],["\u{1e7c}\u{20d2}","\u{56}\u{20d2}\u{303}","\u{1e7c}\u{20d2}","\u{56}\u{20d2}\u{303}"],["\u{57}\u{20d2}\u{303}","\u{57}\u{20d2}\u{303}","\u{57}\u{20d2}\u{303}","\u{57}\u{20d2}\u{303}"],["\u{58}\u{20d2}\u{303}","\u{58}\u{20d2}\u{303}","\u{58}\u{20d2}\u{303}","\u{58}\u{20d2}\u{303}"],["\u{1ef8}\u{20d2}","\u{59}\u{20d2}\u{303}","\u{1ef8}\u{20d2}","\u{59}\u{20d2}\u{303}"],["\u{5a}\u{20d2}\u{303}","\u{5a}\u{20d2}\u{303}","\u{5a}\u{20d2}\u{303}","\u{5a}\u{20d2}\u{303}"],["\u{5b}\u{20d2}\u{303}","\u{5b}\u{20d2}\u{303}","\u{5b}\u{20d2}\u{303}","\u{5b}\u{20d2}\u{303}"],["\u{5c}\u{20d2}\u{303}","\u{5c}\u{20d2}\u{303}","\u{5c}\u{20d2}\u{303}","\u{5c}\u{20d2}\u{303}"],["\u{5d}\u{20d2}\u{303}","\u{5d}\u{20d2}\u{303}","\u{5d}\u{20d2}\u{303}","\u{5d}\u{20d2}\u{303}"],["\u{5e}\u{20d2}\u{303}","\u{5e}\u{20d2}\u{303}","\u{5e}\u{20d2}\u{303}","\u{5e}\u{20d2}\u{303}"],["\u{5f}\u{20d2}\u{303}","\u{5f}\u{20d2}\u{303}","\u{5f}\u{20d2}\u{303}","\u{5f}\u{20d2}\u{303}"],["\u{60}\u{20d2}\u{303}","\u{60}\u{20d2}\u{303}","\u{60}\u{20d2}\u{303}","\u{60}\u{20d2}\u{303}"],["\u{e3}\u{20d2}","\u{61}\u{20d2}\u{303}","\u{e3}\u{20d2}","\u{61}\u{20d2}\u{303}"],["\u{62}\u{20d2}\u{303}","\u{62}\u{20d2}\u{303}","\u{62}\u{20d2}\u{303}","\u{62}\u{20d2}\u{303}"],["\u{63}\u{20d2}\u{303}","\u{63}\u{20d2}\u{303}","\u{63}\u{20d2}\u{303}","\u{63}\u{20d2}\u{303}"],["\u{64}\u{20d2}\u{303}","\u{64}\u{20d2}\u{303}","\u{64}\u{20d2}\u{303}","\u{64}\u{20d2}\u{303}"],["\u{1ebd}\u{20d2}","\u{65}\u{20d2}\u{303}","\u{1ebd}\u{20d2}","\u{65}\u{20d2}\u{303}"],["\u{66}\u{20d2}\u{303}","\u{66}\u{20d2}\u{303}","\u{66}\u{20d2}\u{303}","\u{66}\u{20d2}\u{303}"],["\u{67}\u{20d2}\u{303}","\u{67}\u{20d2}\u{303}","\u{67}\u{20d2}\u{303}","\u{67}\u{20d2}\u{303}"],["\u{68}\u{20d2}\u{303}","\u{68}\u{20d2}\u{303}","\u{68}\u{20d2}\u{303}","\u{68}\u{20d2}\u{303}"],["\u{129}\u{20d2}","\u{69}\u{20d2}\u{303}","\u{129}\u{20d2}","\u{69}\u{20d2}\u{303}"],["\u{6a}\u{20d2}\u{303}","\u{6a}\u{20d2}\u{303}","\u{6a}\u{20d2}\u{303}","\u{6a}\u{20d2}\u{303}"],["\u{6b}\u{20d2}\u{303}","\u{6b}\u{20d2}\u{303}","\u{6b}\u{20d2}\u{303}","\u{6b}\u{20d2}\u{303}"],["\u{6c}\u{20d2}\u{303}","\u{6c}\u{20d2}\u{303}","\u{6c}\u{20d2}\u{303}","\u{6c}\u{20d2}\u{303}"],["\u{6d}\u{20d2}\u{303}","\u{6d}\u{20d2}\u{303}","\u{6d}\u{20d2}\u{303}","\u{6d}\u{20d2}\u{303}"],["\u{f1}\u{20d2}","\u{6e}\u{20d2}\u{303}","\u{f1}\u{20d2}","\u{6e}\u{20d2}\u{303}"],["\u{f5}\u{20d2}","\u{6f}\u{20d2}\u{303}","\u{f5}\u{20d2}","\u{6f}\u{20d2}\u{303}"],["\u{70}\u{20d2}\u{303}","\u{70}\u{20d2}\u{303}","\u{70}\u{20d2}\u{303}","\u{70}\u{20d2}\u{303}"],["\u{71}\u{20d2}\u{303}","\u{71}\u{20d2}\u{303}","\u{71}\u{20d2}\u{303}","\u{71}\u{20d2}\u{303}"],["\u{72}\u{20d2}\u{303}","\u{72}\u{20d2}\u{303}","\u{72}\u{20d2}\u{303}","\u{72}\u{20d2}\u{303}"],["\u{73}\u{20d2}\u{303}","\u{73}\u{20d2}\u{303}","\u{73}\u{20d2}\u{303}","\u{73}\u{20d2}\u{303}"],["\u{74}\u{20d2}\u{303}","\u{74}\u{20d2}\u{303}","\u{74}\u{20d2}\u{303}","\u{74}\u{20d2}\u{303}"],["\u{169}\u{20d2}","\u{75}\u{20d2}\u{303}","\u{169}\u{20d2}","\u{75}\u{20d2}\u{303}"],["\u{1e7d}\u{20d2}","\u{76}\u{20d2}\u{303}","\u{1e7d}\u{20d2}","\u{76}\u{20d2}\u{303}"],["\u{77}\u{20d2}\u{303}","\u{77}\u{20d2}\u{303}","\u{77}\u{20d2}\u{303}","\u{77}\u{20d2}\u{303}"],["\u{78}\u{20d2}\u{303}","\u{78}\u{20d2}\u{303}","\u{78}\u{20d2}\u{303}","\u{78}\u{20d2}\u{303}"],["\u{1ef9}\u{20d2}","\u{79}\u{20d2}\u{303}","\u{1ef9}\u{20d2}","\u{79}\u{20d2}\u{303}"],["\u{7a}\u{20d2}\u{303}","\u{7a}\u{20d2}\u{303}","\u{7a}\u{20d2}\u{303}","\u{7a}\u{20d2}\u{303}"]],
[["\u{c4}\u{20d2}","\u{41}\u{20d2}\u{308}","\u{c4}\u{20d2}","\u{41}\u{20d2}\u{308}"],["\u{42}\u{20d2}\u{308}","\u{42}\u{20d2}\u{308}","\u{42}\u{20d2}\u{308}","\u{42}\u{20d2}\u{308}"],["\u{43}\u{20d2}\u{308}","\u{43}\u{20d2}\u{308}","\u{43}\u{20d2}\u{308}","\u{43}\u{20d2}\u{308}"],["\u{44}\u{20d2}\u{308}","\u{44}\u{20d2}\u{308}","\u{44}\u{20d2}\u{308}","\u{44}\u{20d2}\u{308}"],["\u{cb}\u{20d2}","\u{45}\u{20d2}\u{308}","\u{cb}\u{20d2}","\u{45}\u{20d2}\u{308}"],["\u{46}\u{20d2}\u{308}","\u{46}\u{20d2}\u{308}","\u{46}\u{20d2}\u{308}","\u{46}\u{20d2}\u{308}"],["\u{47}\u{20d2}\u{308}","\u{47}\u{20d2}\u{308}","\u{47}\u{20d2}\u{308}","\u{47}\u{20d2}\u{308}"],["\u{1e26}\u{20d2}","\u{48}\u{20d2}\u{308}","\u{1e26}\u{20d2}","\u{48}\u{20d2}\u{308}"],["\u{cf}\u{20d2}","\u{49}\u{20d2}\u{308}","\u{cf}\u{20d2}","\u{49}\u{20d2}\u{308}"],["\u{4a}\u{20d2}\u{308}","\u{4a}\u{20d2}\u{308}","\u{4a}\u{20d2}\u{308}","\u{4a}\u{20d2}\u{308}"],["\u{4b}\u{20d2}\u{308}","\u{4b}\u{20d2}\u{308}","\u{4b}\u{20d2}\u{308}","\u{4b}\u{20d2}\u{308}"],["\u{4c}\u{20d2}\u{308}","\u{4c}\u{20d2}\u{308}","\u{4c}\u{20d2}\u{308}","\u{4c}\u{20d2}\u{308}"],["\u{4d}\u{20d2}\u{308}","\u{4d}\u{20d2}\u{308}","\u{4d}\u{20d2}\u{308}","\u{4d}\u{20d2}\u{308}"],["\u{4e}\u{20d2}\u{308}","\u{4e}\u{20d2}\u{308}","\u{4e}\u{20d2}\u{308}","\u{4e}\u{20d2}\u{308}"],["\u{d6}\u{20d2}","\u{4f}\u{20d2}\u{308}","\u{d6}\u{20d2}","\u{4f}\u{20d2}\u{308}"],["\u{50}\u{20d2}\u{308}","\u{50}\u{20d2}\u{308}","\u{50}\u{20d2}\u{308}","\u{50}\u{20d2}\u{308}"],["\u{51}\u{20d2}\u{308}","\u{51}\u{20d2}\u{308}","\u{51}\u{20d2}\u{308}","\u{51}\u{20d2}\u{308}"],["\u{52}\u{20d2}\u{308}","\u{52}\u{20d2}\u{308}","\u{52}\u{20d2}\u{308}","\u{52}\u{20d2}\u{308}"],["\u{53}\u{20d2}\u{308}","\u{53}\u{20d2}\u{308}","\u{53}\u{20d2}\u{308}","\u{53}\u{20d2}\u{308}"],["\u{54}\u{20d2}\u{308}","\u{54}\u{20d2}\u{308}","\u{54}\u{20d2}\u{308}","\u{54}\u{20d2}\u{308}"],["\u{dc}\u{20d2}","\u{55}\u{20d2}\u{308}","\u{dc}\u{20d2}","\u{55}\u{20d2}\u{308}"],["\u{56}\u{20d2}\u{308}","\u{56}\u{20d2}\u{308}","\u{56}\u{20d2}\u{308}","\u{56}\u{20d2}\u{308}"],["\u{1e84}\u{20d2}","\u{57}\u{20d2}\u{308}","\u{1e84}\u{20d2}","\u{57}\u{20d2}\u{308}"],["\u{1e8c}\u{20d2}","\u{58}\u{20d2}\u{308}","\u{1e8c}\u{20d2}","\u{58}\u{20d2}\u{308}"],["\u{178}\u{20d2}","\u{59}\u{20d2}\u{308}","\u{178}\u{20d2}","\u{59}\u{20d2}\u{308}"],["\u{5a}\u{20d2}\u{308}","\u{5a}\u{20d2}\u{308}","\u{5a}\u{20d2}\u{308}","\u{5a}\u{20d2}\u{308}"],["\u{5b}\u{20d2}\u{308}","\u{5b}\u{20d2}\u{308}","\u{5b}\u{20d2}\u{308}","\u{5b}\u{20d2}\u{308}"],["\u{5c}\u{20d2}\u{308}","\u{5c}\u{20d2}\u{308}","\u{5c}\u{20d2}\u{308}","\u{5c}\u{20d2}\u{308}"],["\u{5d}\u{20d2}\u{308}","\u{5d}\u{20d2}\u{308}","\u{5d}\u{20d2}\u{308}","\u{5d}\u{20d2}\u{308}"],["\u{5e}\u{20d2}\u{308}","\u{5e}\u{20d2}\u{308}","\u{5e}\u{20d2}\u{308}","\u{5e}\u{20d2}\u{308}"],["\u{5f}\u{20d2}\u{308}","\u{5f}\u{20d2}\u{308}","\u{5f}\u{20d2}\u{308}","\u{5f}\u{20d2}\u{308}"],["\u{60}\u{20d2}\u{308}","\u{60}\u{20d2}\u{308}","\u{60}\u{20d2}\u{308}","\u{60}\u{20d2}\u{308}"],["\u{e4}\u{20d2}","\u{61}\u{20d2}\u{308}","\u{e4}\u{20d2}","\u{61}\u{20d2}\u{308}"],["\u{62}\u{20d2}\u{308}","\u{62}\u{20d2}\u{308}","\u{62}\u{20d2}\u{308}","\u{62}\u{20d2}\u{308}"],["\u{63}\u{20d2}\u{308}","\u{63}\u{20d2}\u{308}","\u{63}\u{20d2}\u{308}","\u{63}\u{20d2}\u{308}"],["\u{64}\u{20d2}\u{308}","\u{64}\u{20d2}\u{308}","\u{64}\u{20d2}\u{308}","\u{64}\u{20d2}\u{308}"],["\u{eb}\u{20d2}","\u{65}\u{20d2}\u{308}","\u{eb}\u{20d2}","\u{65}\u{20d2}\u{308}"],["\u{66}\u{20d2}\u{308}","\u{66}\u{20d2}\u{308}","\u{66}\u{20d2}\u{308}","\u{66}\u{20d2}\u{308}"],["\u{67}\u{20d2}\u{308}","\u{67}\u{20d2}\u{308}","\u{67}\u{20d2}\u{308}","\u{67}\u{20d2}\u{308}"],["\u{1e27}\u{20d2}","\u{68}\u{20d2}\u{308}","\u{1e27}\u{20d2}","\u{68}\u{20d2}\u{308}"],["\u{ef}\u{20d2}","\u{69}\u{20d2}\u{308}","\u{ef}\u{20d2}","\u{69}\u{20d2}\u{308}"],["\u{6a}\u{20d2}\u{308}","\u{6a}\u{20d2}\u{308}","\u{6a}\u{20d2}\u{308}","\u{6a}\u{20d2}\u{308}"],["\u{6b}\u{20d2}\u{308}","\u{6b}\u{20d2}\u{308}","\u{6b}\u{20d2}\u{308}","\u{6b}\u{20d2}\u{308}"],["\u{6c}\u{20d2}\u{308}","\u{6c}\u{20d2}\u{308}","\u{6c}\u{20d2}\u{308}","\u{6c}\u{20d2}\u{308}"],["\u{6d}\u{20d2}\u{308}","\u{6d}\u{20d2}\u{308}","\u{6d}\u{20d2}\u{308}","\u{6d}\u{20d2}\u{308}"],["\u{6e}\u{20d2}\u{308}","\u{6e}\u{20d2}\u{308}","\u{6e}\u{20d2}\u{308}","\u{6e}\u{20d2}\u{308}"],["\u{f6}\u{20d2}","\u{6f}\u{20d2}\u{308}","\u{f6}\u{20d2}","\u{6f}\u{20d2}\u{308}"],["\u{70}\u{20d2}\u{308}","\u{70}\u{20d2}\u{308}","\u{70}\u{20d2}\u{308}","\u{70}\u{20d2}\u{308}"],["\u{71}\u{20d2}\u{308}","\u{71}\u{20d2}\u{308}","\u{71}\u{20d2}\u{308}","\u{71}\u{20d2}\u{308}"],["\u{72}\u{20d2}\u{308}","\u{72}\u{20d2}\u{308}","\u{72}\u{20d2}\u{308}","\u{72}\u{20d2}\u{308}"],["\u{73}\u{20d2}\u{308}","\u{73}\u{20d2}\u{308}","\u{73}\u{20d2}\u{308}","\u{73}\u{20d2}\u{308}"],["\u{1e97}\u{20d2}","\u{74}\u{20d2}\u{308}","\u{1e97}\u{20d2}","\u{74}\u{20d2}\u{308}"],["\u{fc}\u{20d2}","\u{75}\u{20d2}\u{308}","\u{fc}\u{20d2}","\u{75}\u{20d2}\u{308}"],["\u{76}\u{20d2}\u{308}","\u{76}\u{20d2}\u{308}","\u{76}\u{20d2}\u{308}","\u{76}\u{20d2}\u{308}"],["\u{1e85}\u{20d2}","\u{77}\u{20d2}\u{308}","\u{1e85}\u{20d2}","\u{77}\u{20d2}\u{308}"],["\u{1e8d}\u{20d2}","\u{78}\u{20d2}\u{308}","\u{1e8d}\u{20d2}","\u{78}\u{20d2}\u{308}"],["\u{ff}\u{20d2}","\u{79}\u{20d2}\u{308}","\u{ff}\u{20d2}","\u{79}\u{20d2}\u{308}"],["\u{7a}\u{20d2}\u{308}","\u{7a}\u{20d2}\u{308}","\u{7a}\u{20d2}\u{308}","\u{7a}\u{20d2}\u{308}"]],
[["\u{1ea0}\u{20d2}","\u{41}\u{20d2}\u{323}","\u{1ea0}\u{20d2}","\u{41}\u{20d2}\u{323}"],["\u{1e04}\u{20d2}","\u{42}\u{20d2}\u{323}","\u{1e04}\u{20d2}","\u{42}\u{20d2}\u{323}"],["\u{43}\u{20d2}\u{323}","\u{43}\u{20d2}\u{323}","\u{43}\u{20d2}\u{323}","\u{43}\u{20d2}\u{323}"],["\u{1e0c}\u{20d2}","\u{44}\u{20d2}\u{323}","\u{1e0c}\u{20d2}","\u{44}\u{20d2}\u{323}"],["\u{1eb8}\u{20d2}","\u{45}\u{20d2}\u{323}","\u{1eb8}\u{20d2}","\u{45}\u{20d2}\u{323}"],["\u{46}\u{20d2}\u{323}","\u{46}\u{20d2}\u{323}","\u{46}\u{20d2}\u{323}","\u{46}\u{20d2}\u{323}"],["\u{47}\u{20d2}\u{323}","\u{47}\u{20d2}\u{323}","\u{47}\u{20d2}\u{323}","\u{47}\u{20d2}\u{323}"],["\u{1e24}\u{20d2}","\u{48}\u{20d2}\u{323}","\u{1e24}\u{20d2}","\u{48}\u{20d2}\u{323}"],["\u{1eca}\u{20d2}","\u{49}\u{20d2}\u{323}","\u{1eca}\u{20d2}","\u{49}\u{20d2}\u{323}"],["\u{4a}\u{20d2}\u{323}","\u{4a}\u{20d2}\u{323}","\u{4a}\u{20d2}\u{323}","\u{4a}\u{20d2}\u{323}"],["\u{1e32}\u{20d2}","\u{4b}\u{20d2}\u{323}","\u{1e32}\u{20d2}","\u{4b}\u{20d2}\u{323}"],["\u{1e36}\u{20d2}","\u{4c}\u{20d2}\u{323}","\u{1e36}\u{20d2}","\u{4c}\u{20d2}\u{323}"],["\u{1e42}\u{20d2}","\u{4d}\u{20d2}\u{323}","\u{1e42}\u{20d2}","\u{4d}\u{20d2}\u{323}"],["\u{1e46}\u{20d2}","\u{4e}\u{20d2}\u{323}","\u{1e46}\u{20d2}","\u{4e}\u{20d2}\u{323}"],["\u{1ecc}\u{20d2}","\u{4f}\u{20d2}\u{323}","\u{1ecc}\u{20d2}","\u{4f}\u{20d2}\u{323}"],["\u{50}\u{20d2}\u{323}","\u{50}\u{20d2}\u{323}","\u{50}\u{20d2}\u{323}","\u{50}\u{20d2}\u{323}"],["\u{51}\u{20d2}\u{323}","\u{51}\u{20d2}\u{323}","\u{51}\u{20d2}\u{323}","\u{51}\u{20d2}\u{323}"],["\u{1e5a}\u{20d2}","\u{52}\u{20d2}\u{323}","\u{1e5a}\u{20d2}","\u{52}\u{20d2}\u{323}"],["\u{1e62}\u{20d2}","\u{53}\u{20d2}\u{323}","\u{1e62}\u{20d2}","\u{53}\u{20d2}\u{323}"],["\u{1e6c}\u{20d2}","\u{54}\u{20d2}\u{323}","\u{1e6c}\u{20d2}","\u{54}\u{20d2}\u{323}"],["\u{1ee4}\u{20d2}","\u{55}\u{20d2}\u{323}","\u{1ee4}\u{20d2}","\u{55}\u{20d2}\u{323}"],["\u{1e7e}\u{20d2}","\u{56}\u{20d2}\u{323}","\u{1e7e}\u{20d2}","\u{56}\u{20d2}\u{323}"],["\u{1e88}\u{20d2}","\u{57}\u{20d2}\u{323}","\u{1e88}\u{20d2}","\u{57}\u{20d2}\u{323}"],["\u{58}\u{20d2}\u{323}","\u{58}\u{20d2}\u{323}","\u{58}\u{20d2}\u{323}","\u{58}\u{20d2}\u{323}"],["\u{1ef4}\u{20d2}","\u{59}\u{20d2}\u{323}","\u{1ef4}\u{20d2}","\u{59}\u{20d2}\u{323}"],["\u{1e92}\u{20d2}","\u{5a}\u{20d2}\u{323}","\u{1e92}\u{20d2}","\u{5a}\u{20d2}\u{323}"],["\u{5b}\u{20d2}\u{323}","\u{5b}\u{20d2}\u{323}","\u{5b}\u{20d2}\u{323}","\u{5b}\u{20d2}\u{323}"],["\u{5c}\u{20d2}\u{323}","\u{5c}\u{20d2}\u{323}","\u{5c}\u{20d2}\u{323}","\u{5c}\u{20d2}\u{323}"],["\u{5d}\u{20d2}\u{323}","\u{5d}\u{20d2}\u{323}","\u{5d}\u{20d2}\u{323}","\u{5d}\u{20d2}\u{323}"],["\u{5e}\u{20d2}\u{323}","\u{5e}\u{20d2}\u{323}","\u{5e}\u{20d2}\u{323}","\u{5e}\u{20d2}\u{323}"],["\u{5f}\u{20d2}\u{323}","\u{5f}\u{20d2}\u{323}","\u{5f}\u{20d2}\u{323}","\u{5f}\u{20d2}\u{323}"],["\u{60}\u{20d2}\u{323}","\u{60}\u{20d2}\u{323}","\u{60}\u{20d2}\u{323}","\u{60}\u{20d2}\u{323}"],["\u{1ea1}\u{20d2}","\u{61}\u{20d2}\u{323}","\u{1ea1}\u{20d2}","\u{61}\u{20d2}\u{323}"],["\u{1e05}\u{20d2}","\u{62}\u{20d2}\u{323}","\u{1e05}\u{20d2}","\u{62}\u{20d2}\u{323}"],["\u{63}\u{20d2}\u{323}","\u{63}\u{20d2}\u{323}","\u{63}\u{20d2}\u{323}","\u{63}\u{20d2}\u{323}"],["\u{1e0d}\u{20d2}","\u{64}\u{20d2}\u{323}","\u{1e0d}\u{20d2}","\u{64}\u{20d2}\u{323}"],["\u{1eb9}\u{20d2}","\u{65}\u{20d2}\u{323}","\u{1eb9}\u{20d2}","\u{65}\u{20d2}\u{323}"],["\u{66}\u{20d2}\u{323}","\u{66}\u{20d2}\u{323}","\u{66}\u{20d2}\u{323}","\u{66}\u{20d2}\u{323}"],["\u{67}\u{20d2}\u{323}","\u{67}\u{20d2}\u{323}","\u{67}\u{20d2}\u{323}","\u{67}\u{20d2}\u{323}"],["\u{1e25}\u{20d2}","\u{68}\u{20d2}\u{323}","\u{1e25}\u{20d2}","\u{68}\u{20d2}\u{323}"],["\u{1ecb}\u{20d2}","\u{69}\u{20d2}\u{323}","\u{1ecb}\u{20d2}","\u{69}\u{20d2}\u{323}"],["\u{6a}\u{20d2}\u{323}","\u{6a}\u{20d2}\u{323}","\u{6a}\u{20d2}\u{323}","\u{6a}\u{20d2}\u{323}"],["\u{1e33}\u{20d2}","\u{6b}\u{20d2}\u{323}","\u{1e33}\u{20d2}","\u{6b}\u{20d2}\u{323}"],["\u{1e37}\u{20d2}","\u{6c}\u{20d2}\u{323}","\u{1e37}\u{20d2}","\u{6c}\u{20d2}\u{323}"],["\u{1e43}\u{20d2}","\u{6d}\u{20d2}\u{323}","\u{1e43}\u{20d2}","\u{6d}\u{20d2}\u{323}"],["\u{1e47}\u{20d2}","\u{6e}\u{20d2}\u{323}","\u{1e47}\u{20d2}","\u{6e}\u{20d2}\u{323}"],["\u{1ecd}\u{20d2}","\u{6f}\u{20d2}\u{323}","\u{1ecd}\u{20d2}","\u{6f}\u{20d2}\u{323}"],["\u{70}\u{20d2}\u{323}","\u{70}\u{20d2}\u{323}","\u{70}\u{20d2}\u{323}","\u{70}\u{20d2}\u{323}"],["\u{71}\u{20d2}\u{323}","\u{71}\u{20d2}\u{323}","\u{71}\u{20d2}\u{323}","\u{71}\u{20d2}\u{323}"],["\u{1e5b}\u{20d2}","\u{72}\u{20d2}\u{323}","\u{1e5b}\u{20d2}","\u{72}\u{20d2}\u{323}"],["\u{1e63}\u{20d2}","\u{73}\u{20d2}\u{323}","\u{1e63}\u{20d2}","\u{73}\u{20d2}\u{323}"],["\u{1e6d}\u{20d2}","\u{74}\u{20d2}\u{323}","\u{1e6d}\u{20d2}","\u{74}\u{20d2}\u{323}"],["\u{1ee5}\u{20d2}","\u{75}\u{20d2}\u{323}","\u{1ee5}\u{20d2}","\u{75}\u{20d2}\u{323}"],["\u{1e7f}\u{20d2}","\u{76}\u{20d2}\u{323}","\u{1e7f}\u{20d2}","\u{76}\u{20d2}\u{323}"],["\u{1e89}\u{20d2}","\u{77}\u{20d2}\u{323}","\u{1e89}\u{20d2}","\u{77}\u{20d2}\u{323}"],["\u{78}\u{20d2}\u{323}","\u{78}\u{20d2}\u{323}","\u{78}\u{20d2}\u{323}","\u{78}\u{20d2}\u{323}"],["\u{1ef5}\u{20d2}","\u{79}\u{20d2}\u{323}","\u{1ef5}\u{20d2}","\u{79}\u{20d2}\u{323}"],["\u{1e93}\u{20d2}","\u{7a}\u{20d2}\u{323}","\u{1e93}\u{20d2}","\u{7a}\u{20d2}\u{323}"]],
[["\u{41}\u{20d2}\u{327}","\u{41}\u{20d2}\u{327}","\u{41}\u{20d2}\u{327}","\u{41}\u{20d2}\u{327}"],["\u{42}\u{20d2}\u{327}","\u{42}\u{20d2}\u{327}","\u{42}\u{20d2}\u{327}","\u{42}\u{20d2}\u{327}"],["\u{c7}\u{20d2}","\u{43}\u{20d2}\u{327}","\u{c7}\u{20d2}","\u{43}\u{20d2}\u{327}"],["\u{1e10}\u{20d2}","\u{44}\u{20d2}\u{327}","\u{1e10}\u{20d2}","\u{44}\u{20d2}\u{327}"],["\u{228}\u{20d2}","\u{45}\u{20d2}\u{327}","\u{228}\u{20d2}","\u{45}\u{20d2}\u{327}"],["\u{46}\u{20d2}\u{327}","\u{46}\u{20d2}\u{327}","\u{46}\u{20d2}\u{327}","\u{46}\u{20d2}\u{327}"],["\u{122}\u{20d2}","\u{47}\u{20d2}\u{327}","\u{122}\u{20d2}","\u{47}\u{20d2}\u{327}"],["\u{1e28}\u{20d2}","\u{48}\u{20d2}\u{327}","\u{1e28}\u{20d2}","\u{48}\u{20d2}\u{327}"],["\u{49}\u{20d2}\u{327}","\u{49}\u{20d2}\u{327}","\u{49}\u{20d2}\u{327}","\u{49}\u{20d2}\u{327}"],["\u{4a}\u{20d2}\u{327}","\u{4a}\u{20d2}\u{327}","\u{4a}\u{20d2}\u{327}","\u{4a}\u{20d2}\u{327}"],["\u{136}\u{20d2}","\u{4b}\u{20d2}\u{327}","\u{136}\u{20d2}","\u{4b}\u{20d2}\u{327}"],["\u{13b}\u{20d2}","\u{4c}\u{20d2}\u{327}","\u{13b}\u{20d2}","\u{4c}\u{20d2}\u{327}"],["\u{4d}\u{20d2}\u{327}","\u{4d}\u{20d2}\u{327}","\u{4d}\u{20d2}\u{327}","\u{4d}\u{20d2}\u{327}"],["\u{145}\u{20d2}","\u{4e}\u{20d2}\u{327}","\u{145}\u{20d2}","\u{4e}\u{20d2}\u{327}"],["\u{4f}\u{20d2}\u{327}","\u{4f}\u{20d2}\u{327}","\u{4f}\u{20d2}\u{327}","\u{4f}\u{20d2}\u{327}"],["\u{50}\u{20d2}\u{327}","\u{50}\u{20d2}\u{327}","\u{50}\u{20d2}\u{327}","\u{50}\u{20d2}\u{327}"],["\u{51}\u{20d2}\u{327}","\u{51}\u{20d2}\u{327}","\u{51}\u{20d2}\u{327}","\u{51}\u{20d2}\u{327}"],["\u{156}\u{20d2}","\u{52}\u{20d2}\u{327}","\u{156}\u{20d2}","\u{52}\u{20d2}\u{327}"],["\u{15e}\u{20d2}","\u{53}\u{20d2}\u{327}","\u{15e}\u{20d2}","\u{53}\u{20d2}\u{327}"],["\u{162}\u{20d2}","\u{54}\u{20d2}\u{327}","\u{162}\u{20d2}","\u{54}\u{20d2}\u{327}"],["\u{55}\u{20d2}\u{327}","\u{55}\u{20d2}\u{327}","\u{55}\u{20d2}\u{327}","\u{55}\u{20d2}\u{327}"],["\u{56}\u{20d2}\u{327}","\u{56}\u{20d2}\u{327}","\u{56}\u{20d2}\u{327}","\u{56}\u{20d2}\u{327}"],["\u{57}\u{20d2}\u{327}","\u{57}\u{20d2}\u{327}","\u{57}\u{20d2}\u{327}","\u{57}\u{20d2}\u{327}"],["\u{58}\u{20d2}\u{327}","\u{58}\u{20d2}\u{327}","\u{58}\u{20d2}\u{327}","\u{58}\u{20d2}\u{327}"],["\u{59}\u{20d2}\u{327}","\u{59}\u{20d2}\u{327}","\u{59}\u{20d2}\u{327}","\u{59}\u{20d2}\u{327}"],["\u{5a}\u{20d2}\u{327}","\u{5a}\u{20d2}\u{327}","\u{5a}\u{20d2}\u{327}","\u{5a}\u{20d2}\u{327}"],["\u{5b}\u{20d2}\u{327}","\u{5b}\u{20d2}\u{327}","\u{5b}\u{20d2}\u{327}","\u{5b}\u{20d2}\u{327}"],["\u{5c}\u{20d2}\u{327}","\u{5c}\u{20d2}\u{327}","\u{5c}\u{20d2}\u{327}","\u{5c}\u{20d2}\u{327}"],["\u{5d}\u{20d2}\u{327}","\u{5d}\u{20d2}\u{327}","\u{5d}\u{20d2}\u{327}","\u{5d}\u{20d2}\u{327}"],["\u{5e}\u{20d2}\u{327}","\u{5e}\u{20d2}\u{327}","\u{5e}\u{20d2}\u{327}","\u{5e}\u{20d2}\u{327}"],["\u{5f}\u{20d2}\u{327}","\u{5f}\u{20d2}\u{327}","\u{5f}\u{20d2}\u{327}","\u{5f}\u{20d2}\u{327}"],["\u{60}\u{20d2}\u{327}","\u{60}\u{20d2}\u{327}","\u{60}\u{20d2}\u{327}","\u{60}\u{20d2}\u{327}"],["\u{61}\u{20d2}\u{327}","\u{61}\u{20d2}\u{327}","\u{61}\u{20d2}\u{327}","\u{61}\u{20d2}\u{327}"],["\u{62}\u{20d2}\u{327}","\u{62}\u{20d2}\u{327}","\u{62}\u{20d2}\u{327}","\u{62}\u{20d2}\u{327}"],["\u{e7}\u{20d2}","\u{63}\u{20d2}\u{327}","\u{e7}\u{20d2}","\u{63}\u{20d2}\u{327}"],["\u{1e11}\u{20d2}","\u{64}\u{20d2}\u{327}","\u{1e11}\u{20d2}","\u{64}\u{20d2}\u{327}"],["\u{229}\u{20d2}","\u{65}\u{20d2}\u{327}","\u{229}\u{20d2}","\u{65}\u{20d2}\u{327}"],["\u{66}\u{20d2}\u{327}","\u{66}\u{20d2}\u{327}","\u{66}\u{20d2}\u{327}","\u{66}\u{20d2}\u{327}"],["\u{123}\u{20d2}","\u{67}\u{20d2}\u{327}","\u{123}\u{20d2}","\u{67}\u{20d2}\u{327}"],["\u{1e29}\u{20d2}","\u{68}\u{20d2}\u{327}","\u{1e29}\u{20d2}","\u{68}\u{20d2}\u{327}"],["\u{69}\u{20d2}\u{327}","\u{69}\u{20d2}\u{327}","\u{69}\u{20d2}\u{327}","\u{69}\u{20d2}\u{327}"],["\u{6a}\u{20d2}\u{327}","\u{6a}\u{20d2}\u{327}","\u{6a}\u{20d2}\u{327}","\u{6a}\u{20d2}\u{327}"],["\u{137}\u{20d2}","\u{6b}\u{20d2}\u{327}","\u{137}\u{20d2}","\u{6b}\u{20d2}\u{327}"],["\u{13c}\u{20d2}","\u{6c}\u{20d2}\u{327}","\u{13c}\u{20d2}","\u{6c}\u{20d2}\u{327}"],["\u{6d}\u{20d2}\u{327}","\u{6d}\u{20d2}\u{327}","\u{6d}\u{20d2}\u{327}","\u{6d}\u{20d2}\u{327}"],["\u{146}\u{20d2}","\u{6e}\u{20d2}\u{327}","\u{146}\u{20d2}","\u{6e}\u{20d2}\u{327}"],["\u{6f}\u{20d2}\u{327}","\u{6f}\u{20d2}\u{327}","\u{6f}\u{20d2}\u{327}","\u{6f}\u{20d2}\u{327}"],["\u{70}\u{20d2}\u{327}","\u{70}\u{20d2}\u{327}","\u{70}\u{20d2}\u{327}","\u{70}\u{20d2}\u{327}"],["\u{71}\u{20d2}\u{327}","\u{71}\u{20d2}\u{327}","\u{71}\u{20d2}\u{327}","\u{71}\u{20d2}\u{327}"],["\u{157}\u{20d2}","\u{72}\u{20d2}\u{327}","\u{157}\u{20d2}","\u{72}\u{20d2}\u{327}"],["\u{15f}\u{20d2}","\u{73}\u{20d2}\u{327}","\u{15f}\u{20d2}","\u{73}\u{20d2}\u{327}"],["\u{163}\u{20d2}","\u{74}\u{20d2}\u{327}","\u{163}\u{20d2}","\u{74}\u{20d2}\u{327}"],["\u{75}\u{20d2}\u{327}","\u{75}\u{20d2}\u{327}","\u{75}\u{20d2}\u{327}","\u{75}\u{20d2}\u{327}"],["\u{76}\u{20d2}\u{327}","\u{76}\u{20d2}\u{327}","\u{76}\u{20d2}\u{327}","\u{76}\u{20d2}\u{327}"],["\u{77}\u{20d2}\u{327}","\u{77}\u{20d2}\u{327}","\u{77}\u{20d2}\u{327}","\u{77}\u{20d2}\u{327}"],["\u{78}\u{20d2}\u{327}","\u{78}\u{20d2}\u{327}","\u{78}\u{20d2}\u{327}","\u{78}\u{20d2}\u{327}"],["\u{79}\u{20d2}\u{327}","\u{79}\u{20d2}\u{327}","\u{79}\u{20d2}\u{327}","\u{79}\u{20d2}\u{327}"],["\u{7a}\u{20d2}\u{327}","\u{7a}\u{20d2}\u{327}","\u{7a}\u{20d2}\u{327}","\u{7a}\u{20d2}\u{327}"]],
[["\u{41}\u{20d2}\u{31b}","\u{41}\u{20d2}\u{31b}","\u{41}\u{20d2}\u{31b}","\u{41}\u{20d2}\u{31b}"],["\u{42}\u{20d2}\u{31b}","\u{42}\u{20d2}\u{31b}","\u{42}\u{20d2}\u{31b}","\u{42}\u{20d2}\u{31b}"],["\u{43}\u{20d2}\u{31b}","\u{43}\u{20d2}\u{31b}","\u{43}\u{20d2}\u{31b}","\u{43}\u{20d2}\u{31b}"],["\u{44}\u{20d2}\u{31b}","\u{44}\u{20d2}\u{31b}","\u{44}\u{20d2}\u{31b}","\u{44}\u{20d2}\u{31b}"],["\u{45}\u{20d2}\u{31b}","\u{45}\u{20d2}\u{31b}","\u{45}\u{20d2}\u{31b}","\u{45}\u{20d2}\u{31b}"],["\u{46}\u{20d2}\u{31b}","\u{46}\u{20d2}\u{31b}","\u{46}\u{20d2}\u{31b}","\u{46}\u{20d2}\u{31b}"],["\u{47}\u{20d2}\u{31b}","\u{47}\u{20d2}\u{31b}","\u{47}\u{20d2}\u{31b}","\u{47}\u{20d2}\u{31b}"],["\u{48}\u{20d2}\u{31b}","\u{48}\u{20d2}\u{31b}","\u{48}\u{20d2}\u{31b}","\u{48}\u{20d2}\u{31b}"],["\u{49}\u{20d2}\u{31b}","\u{49}\u{20d2}\u{31b}","\u{49}\u{20d2}\u{31b}","\u{49}\u{20d2}\u{31b}"],["\u{4a}\u{20d2}\u{31b}","\u{4a}\u{20d2}\u{31b}","\u{4a}\u{20d2}\u{31b}","\u{4a}\u{20d2}\u{31b}"],["\u{4b}\u{20d2}\u{31b}","\u{4b}\u{20d2}\u{31b}","\u{4b}\u{20d2}\u{31b}","\u{4b}\u{20d2}\u{31b}"],["\u{4c}\u{20d2}\u{31b}","\u{4c}\u{20d2}\u{31b}","\u{4c}\u{20d2}\u{31b}","\u{4c}\u{20d2}\u{31b}"],["\u{4d}\u{20d2}\u{31b}","\u{4d}\u{20d2}\u{31b}","\u{4d}\u{20d2}\u{31b}","\u{4d}\u{20d2}\u{31b}"],["\u{4e}\u{20d2}\u{31b}","\u{4e}\u{20d2}\u{31b}","\u{4e}\u{20d2}\u{31b}","\u{4e}\u{20d2}\u{31b}"],["\u{1a0}\u{20d2}","\u{4f}\u{20d2}\u{31b}","\u{1a0}\u{20d2}","\u{4f}\u{20d2}\u{31b}"],["\u{50}\u{20d2}\u{31b}","\u{50}\u{20d2}\u{31b}","\u{50}\u{20d2}\u{31b}","\u{50}\u{20d2}\u{31b}"],["\u{51}\u{20d2}\u{31b}","\u{51}\u{20d2}\u{31b}","\u{51}\u{20d2}\u{31b}","\u{51}\u{20d2}\u{31b}"],["\u{52}\u{20d2}\u{31b}","\u{52}\u{20d2}\u{31b}","\u{52}\u{20d2}\u{31b}","\u{52}\u{20d2}\u{31b}"],["\u{53}\u{20d2}\u{31b}","\u{53}\u{20d2}\u{31b}","\u{53}\u{20d2}\u{31b}","\u{53}\u{20d2}\u{31b}"],["\u{54}\u{20d2}\u{31b}","\u{54}\u{20d2}\u{31b}","\u{54}\u{20d2}\u{31b}","\u{54}\u{20d2}\u{31b}"],["\u{1af}\u{20d2}","\u{55}\u{20d2}\u{31b}","\u{1af}\u{20d2}","\u{55}\u{20d2}\u{31b}"],["\u{56}\u{20d2}\u{31b}","\u{56}\u{20d2}\u{31b}","\u{56}\u{20d2}\u{31b}","\u{56}\u{20d2}\u{31b}"],["\u{57}\u{20d2}\u{31b}","\u{57}\u{20d2}\u{31b}","\u{57}\u{20d2}\u{31b}","\u{57}\u{20d2}\u{31b}"],["\u{58}\u{20d2}\u{31b}","\u{58}\u{20d2}\u{31b}","\u{58}\u{20d2}\u{31b}","\u{58}\u{20d2}\u{31b}"],["\u{59}\u{20d2}\u{31b}","\u{59}\u{20d2}\u{31b}","\u{59}\u{20d2}\u{31b}","\u{59}\u{20d2}\u{31b}"],["\u{5a}\u{20d2}\u{31b}","\u{5a}\u{20d2}\u{31b}","\u{5a}\u{20d2}\u{31b}","\u{5a}\u{20d2}\u{31b}"],["\u{5b}\u{20d2}\u{31b}","\u{5b}\u{20d2}\u{31b}","\u{5b}\u{20d2}\u{31b}","\u{5b}\u{20d2}\u{31b}"],["\u{5c}\u{20d2}\u{31b}","\u{5c}\u{20d2}\u{31b}","\u{5c}\u{20d2}\u{31b}","\u{5c}\u{20d2}\u{31b}"],["\u{5d}\u{20d2}\u{31b}","\u{5d}\u{20d2}\u{31b}","\u{5d}\u{20d2}\u{31b}","\u{5d}\u{20d2}\u{31b}"],["\u{5e}\u{20d2}\u{31b}","\u{5e}\u{20d2}\u{31b}","\u{5e}\u{20d2}\u{31b}","\u{5e}\u{20d2}\u{31b}"],["\u{5f}\u{20d2}\u{31b}","\u{5f}\u{20d2}\u{31b}","\u{5f}\u{20d2}\u{31b}","\u{5f}\u{20d2}\u{31b}"],["\u{60}\u{20d2}\u{31b}","\u{60}\u{20d2}\u{31b}","\u{60}\u{20d2}\u{31b}","\u{60}\u{20d2}\u{31b}"],["\u{61}\u{20d2}\u{31b}","\u{61}\u{20d2}\u{31b}","\u{61}\u{20d2}\u{31b}","\u{61}\u{20d2}\u{31b}"],["\u{62}\u{20d2}\u{31b}","\u{62}\u{20d2}\u{31b}","\u{62}\u{20d2}\u{31b}","\u{62}\u{20d2}\u{31b}"],["\u{63}\u{20d2}\u{31b}","\u{63}\u{20d2}\u{31b}","\u{63}\u{20d2}\u{31b}","\u{63}\u{20d2}\u{31b}"],["\u{64}\u{20d2}\u{31b}","\u{64}\u{20d2}\u{31b}","\u{64}\u{20d2}\u{31b}","\u{64}\u{20d2}\u{31b}"],["\u{65}\u{20d2}\u{31b}","\u{65}\u{20d2}\u{31b}","\u{65}\u{20d2}\u{31b}","\u{65}\u{20d2}\u{31b}"],["\u{66}\u{20d2}\u{31b}","\u{66}\u{20d2}\u{31b}","\u{66}\u{20d2}\u{31b}","\u{66}\u{20d2}\u{31b}"],["\u{67}\u{20d2}\u{31b}","\u{67}\u{20d2}\u{31b}","\u{67}\u{20d2}\u{31b}","\u{67}\u{20d2}\u{31b}"],["\u{68}\u{20d2}\u{31b}","\u{68}\u{20d2}\u{31b}","\u{68}\u{20d2}\u{31b}","\u{68}\u{20d2}\u{31b}"],["\u{69}\u{20d2}\u{31b}","\u{69}\u{20d2}\u{31b}","\u{69}\u{20d2}\u{31b}","\u{69}\u{20d2}\u{31b}"],["\u{6a}\u{20d2}\u{31b}","\u{6a}\u{20d2}\u{31b}","\u{6a}\u{20d2}\u{31b}","\u{6a}\u{20d2}\u{31b}"],["\u{6b}\u{20d2}\u{31b}","\u{6b}\u{20d2}\u{31b}","\u{6b}\u{20d2}\u{31b}","\u{6b}\u{20d2}\u{31b}"],["\u{6c}\u{20d2}\u{31b}","\u{6c}\u{20d2}\u{31b}","\u{6c}\u{20d2}\u{31b}","\u{6c}\u{20d2}\u{31b}"],["\u{6d}\u{20d2}\u{31b}","\u{6d}\u{20d2}\u{31b}","\u{6d}\u{20d2}\u{31b}","\u{6d}\u{20d2}\u{31b}"],["\u{6e}\u{20d2}\u{31b}","\u{6e}\u{20d2}\u{31b}","\u{6e}\u{20d2}\u{31b}","\u{6e}\u{20d2}\u{31b}"],["\u{1a1}\u{20d2}","\u{6f}\u{20d2}\u{31b}","\u{1a1}\u{20d2}","\u{6f}\u{20d2}\u{31b}"],["\u{70}\u{20d2}\u{31b}","\u{70}\u{20d2}\u{31b}","\u{70}\u{20d2}\u{31b}","\u{70}\u{20d2}\u{31b}"],["\u{71}\u{20d2}\u{31b}","\u{71}\u{20d2}\u{31b}","\u{71}\u{20d2}\u{31b}","\u{71}\u{20d2}\u{31b}"],["\u{72}\u{20d2}\u{31b}","\u{72}\u{20d2}\u{31b}","\u{72}\u{20d2}\u{31b}","\u{72}\u{20d2}\u{31b}"],["\u{73}\u{20d2}\u{31b}","\u{73}\u{20d2}\u{31b}","\u{73}\u{20d2}\u{31b}","\u{73}\u{20d2}\u{31b}"],["\u{74}\u{20d2}\u{31b}","\u{74}\u{20d2}\u{31b}","\u{74}\u{20d2}\u{31b}","\u{74}\u{20d2}\u{31b}"],["\u{1b0}\u{20d2}","\u{75}\u{20d2}\u{31b}","\u{1b0}\u{20d2}","\u{75}\u{20d2}\u{31b}"],["\u{76}\u{20d2}\u{31b}","\u{76}\u{20d2}\u{31b}","\u{76}\u{20d2}\u{31b}","\u{76}\u{20d2}\u{31b}"],["\u{77}\u{20d2}\u{31b}","\u{77}\u{20d2}\u{31b}","\u{77}\u{20d2}\u{31b}","\u{77}\u{20d2}\u{31b}"],["\u{78}\u{20d2}\u{31b}","\u{78}\u{20d2}\u{31b}","\u{78}\u{20d2}\u{31b}","\u{78}\u{20d2}\u{31b}"],["\u{79}\u{20d2}\u{31b}","\u{79}\u{20d2}\u{31b}","\u{79}\u{20d2}\u{31b}","\u{79}\u{20d2}\u{31b}"],["\u{7a}\u{20d2}\u{31b}","\u{7a}\u{20d2}\u{31b}","\u{7a}\u{20d2}\u{31b}","\u{7a}\u{20d2}\u{31b}"]],
[["\u{41}\u{20d2}\u{345}","\u{41}\u{20d2}\u{345}","\u{41}\u{20d2}\u{345}","\u{41}\u{20d2}\u{345}"],["\u{42}\u{20d2}\u{345}","\u{42}\u{20d2}\u{345}","\u{42}\u{20d2}\u{345}","\u{42}\u{20d2}\u{345}"],["\u{43}\u{20d2}\u{345}","\u{43}\u{20d2}\u{345}","\u{43}\u{20d2}\u{345}","\u{43}\u{20d2}\u{345}"],["\u{44}\u{20d2}\u{345}","\u{44}\u{20d2}\u{345}","\u{44}\u{20d2}\u{345}","\u{44}\u{20d2}\u{345}"],["\u{45}\u{20d2}\u{345}","\u{45}\u{20d2}\u{345}","\u{45}\u{20d2}\u{345}","\u{45}\u{20d2}\u{345}"],["\u{46}\u{20d2}\u{345}","\u{46}\u{20d2}\u{345}","\u{46}\u{20d2}\u{345}","\u{46}\u{20d2}\u{345}"],["\u{47}\u{20d2}\u{345}","\u{47}\u{20d2}\u{345}","\u{47}\u{20d2}\u{345}","\u{47}\u{20d2}\u{345}"],["\u{48}\u{20d2}\u{345}","\u{48}\u{20d2}\u{345}","\u{48}\u{20d2}\u{345}","\u{48}\u{20d2}\u{345}"],["\u{49}\u{20d2}\u{345}","\u{49}\u{20d2}\u{345}","\u{49}\u{20d2}\u{345}","\u{49}\u{20d2}\u{345}"],["\u{4a}\u{20d2}\u{345}","\u{4a}\u{20d2}\u{345}","\u{4a}\u{20d2}\u{345}","\u{4a}\u{20d2}\u{345}"],["\u{4b}\u{20d2}\u{345}","\u{4b}\u{20d2}\u{345}","\u{4b}\u{20d2}\u{345}","\u{4b}\u{20d2}\u{345}"],["\u{4c}\u{20d2}\u{345}","\u{4c}\u{20d2}\u{345}","\u{4c}\u{20d2}\u{345}","\u{4c}\u{20d2}\u{345}"],["\u{4d}\u{20d2}\u{345}","\u{4d}\u{20d2}\u{345}","\u{4d}\u{20d2}\u{345}","\u{4d}\u{20d2}\u{345}"],["\u{4e}\u{20d2}\u{345}","\u{4e}\u{20d2}\u{345}","\u{4e}\u{20d2}\u{345}","\u{4e}\u{20d2}\u{345}"],["\u{4f}\u{20d2}\u{345}","\u{4f}\u{20d2}\u{345}","\u{4f}\u{20d2}\u{345}","\u{4f}\u{20d2}\u{345}"],["\u{50}\u{20d2}\u{345}","\u{50}\u{20d2}\u{345}","\u{50}\u{20d2}\u{345}","\u{50}\u{20d2}\u{345}"],["\u{51}\u{20d2}\u{345}","\u{51}\u{20d2}\u{345}","\u{51}\u{20d2}\u{345}","\u{51}\u{20d2}\u{345}"],["\u{52}\u{20d2}\u{345}","\u{52}\u{20d2}\u{345}","\u{52}\u{20d2}\u{345}","\u{52}\u{20d2}\u{345}"],["\u{53}\u{20d2}\u{345}","\u{53}\u{20d2}\u{345}","\u{53}\u{20d2}\u{345}","\u{53}\u{20d2}\u{345}"],["\u{54}\u{20d2}\u{345}","\u{54}\u{20d2}\u{345}","\u{54}\u{20d2}\u{345}","\u{54}\u{20d2}\u{345}"],["\u{55}\u{20d2}\u{345}","\u{55}\u{20d2}\u{345}","\u{55}\u{20d2}\u{345}","\u{55}\u{20d2}\u{345}"],["\u{56}\u{20d2}\u{345}","\u{56}\u{20d2}\u{345}","\u{56}\u{20d2}\u{345}","\u{56}\u{20d2}\u{345}"],["\u{57}\u{20d2}\u{345}","\u{57}\u{20d2}\u{345}","\u{57}\u{20d2}\u{345}","\u{57}\u{20d2}\u{345}"],["\u{58}\u{20d2}\u{345}","\u{58}\u{20d2}\u{345}","\u{58}\u{20d2}\u{345}","\u{58}\u{20d2}\u{345}"],["\u{59}\u{20d2}\u{345}","\u{59}\u{20d2}\u{345}","\u{59}\u{20d2}\u{345}","\u{59}\u{20d2}\u{345}"],["\u{5a}\u{20d2}\u{345}","\u{5a}\u{20d2}\u{345}","\u{5a}\u{20d2}\u{345}","\u{5a}\u{20d2}\u{345}"],["\u{5b}\u{20d2}\u{345}","\u{5b}\u{20d2}\u{345}","\u{5b}\u{20d2}\u{345}","\u{5b}\u{20d2}\u{345}"],["\u{5c}\u{20d2}\u{345}","\u{5c}\u{20d2}\u{345}","\u{5c}\u{20d2}\u{345}","\u{5c}\u{20d2}\u{345}"],["\u{5d}\u{20d2}\u{345}","\u{5d}\u{20d2}\u{345}","\u{5d}\u{20d2}\u{345}","\u{5d}\u{20d2}\u{345}"],["\u{5e}\u{20d2}\u{345}","\u{5e}\u{20d2}\u{345}","\u{5e}\u{20d2}\u{345}","\u{5e}\u{20d2}\u{345}"],["\u{5f}\u{20d2}\u{345}","\u{5f}\u{20d2}\u{345}","\u{5f}\u{20d2}\u{345}","\u{5f}\u{20d2}\u{345}"],["\u{60}\u{20d2}\u{345}","\u{60}\u{20d2}\u{345}","\u{60}\u{20d2}\u{345}","\u{60}\u{20d2}\u{345}"],["\u{61}\u{20d2}\u{345}","\u{61}\u{20d2}\u{345}","\u{61}\u{20d2}\u{345}","\u{61}\u{20d2}\u{345}"],["\u{62}\u{20d2}\u{345}","\u{62}\u{20d2}\u{345}","\u{62}\u{20d2}\u{345}","\u{62}\u{20d2}\u{345}"],["\u{63}\u{20d2}\u{345}","\u{63}\u{20d2}\u{345}","\u{63}\u{20d2}\u{345}","\u{63}\u{20d2}\u{345}"],["\u{64}\u{20d2}\u{345}","\u{64}\u{20d2}\u{345}","\u{64}\u{20d2}\u{345}","\u{64}\u{20d2}\u{345}"],["\u{65}\u{20d2}\u{345}","\u{65}\u{20d2}\u{345}","\u{65}\u{20d2}\u{345}","\u{65}\u{20d2}\u{345}"],["\u{66}\u{20d2}\u{345}","\u{66}\u{20d2}\u{345}","\u{66}\u{20d2}\u{345}","\u{66}\u{20d2}\u{345}"],["\u{67}\u{20d2}\u{345}","\u{67}\u{20d2}\u{345}","\u{67}\u{20d2}\u{345}","\u{67}\u{20d2}\u{345}"],["\u{68}\u{20d2}\u{345}","\u{68}\u{20d2}\u{345}","\u{68}\u{20d2}\u{345}","\u{68}\u{20d2}\u{345}"],["\u{69}\u{20d2}\u{345}","\u{69}\u{20d2}\u{345}","\u{69}\u{20d2}\u{345}","\u{69}\u{20d2}\u{345}"],["\u{6a}\u{20d2}\u{345}","\u{6a}\u{20d2}\u{345}","\u{6a}\u{20d2}\u{345}","\u{6a}\u{20d2}\u{345}"],["\u{6b}\u{20d2}\u{345}","\u{6b}\u{20d2}\u{345}","\u{6b}\u{20d2}\u{345}","\u{6b}\u{20d2}\u{345}"],["\u{6c}\u{20d2}\u{345}","\u{6c}\u{20d2}\u{345}","\u{6c}\u{20d2}\u{345}","\u{6c}\u{20d2}\u{345}"],["\u{6d}\u{20d2}\u{345}","\u{6d}\u{20d2}\u{345}","\u{6d}\u{20d2}\u{345}","\u{6d}\u{20d2}\u{345}"],["\u{6e}\u{20d2}\u{345}","\u{6e}\u{20d2}\u{345}","\u{6e}\u{20d2}\u{345}","\u{6e}\u{20d2}\u{345}"],["\u{6f}\u{20d2}\u{345}","\u{6f}\u{20d2}\u{345}","\u{6f}\u{20d2}\u{345}","\u{6f}\u{20d2}\u{345}"],["\u{70}\u{20d2}\u{345}","\u{70}\u{20d2}\u{345}","\u{70}\u{20d2}\u{345}","\u{70}\u{20d2}\u{345}"],["\u{71}\u{20d2}\u{345}","\u{71}\u{20d2}\u{345}","\u{71}\u{20d2}\u{345}","\u{71}\u{20d2}\u{345}"],["\u{72}\u{20d2}\u{345}","\u{72}\u{20d2}\u{345}","\u{72}\u{20d2}\u{345}","\u{72}\u{20d2}\u{345}"],["\u{73}\u{20d2}\u{345}","\u{73}\u{20d2}\u{345}","\u{73}\u{20d2}\u{345}","\u{73}\u{20d2}\u{345}"],["\u{74}\u{20d2}\u{345}","\u{74}\u{20d2}\u{345}","\u{74}\u{20d2}\u{345}","\u{74}\u{20d2}\u{345}"],["\u{75}\u{20d2}\u{345}","\u{75}\u{20d2}\u{345}","\u{75}\u{20d2}\u{345}","\u{75}\u{20d2}\u{345}"],["\u{76}\u{20d2}\u{345}","\u{76}\u{20d2}\u{345}","\u{76}\u{20d2}\u{345}","\u{76}\u{20d2}\u{345}"],["\u{77}\u{20d2}\u{345}","\u{77}\u{20d2}\u{345}","\u{77}\u{20d2}\u{345}","\u{77}\u{20d2}\u{345}"],["\u{78}\u{20d2}\u{345}","\u{78}\u{20d2}\u{345}","\u{78}\u{20d2}\u{345}","\u{78}\u{20d2}\u{345}"],["\u{79}\u{20d2}\u{345}","\u{79}\u{20d2}\u{345}","\u{79}\u{20d2}\u{345}","\u{79}\u{20d2}\u{345}"],["\u{7a}\u{20d2}\u{345}","\u{7a}\u{20d2}\u{345}","\u{7a}\u{20d2}\u{345}","\u{7a}\u{20d2}\u{345}"]],
[["\u{41}\u{20d2}\u{20d2}","\u{41}\u{20d2}\u{20d2}","\u{41}\u{20d2}\u{20d2}","\u{41}\u{20d2}\u{20d2}"],["\u{42}\u{20d2}\u{20d2}","\u{42}\u{20d2}\u{20d2}","\u{42}\u{20d2}\u{20d2}","\u{42}\u{20d2}\u{20d2}"],["\u{43}\u{20d2}\u{20d2}","\u{43}\u{20d2}\u{20d2}","\u{43}\u{20d2}\u{20d2}","\u{43}\u{20d2}\u{20d2}"],["\u{44}\u{20d2}\u{20d2}","\u{44}\u{20d2}\u{20d2}","\u{44}\u{20d2}\u{20d2}","\u{44}\u{20d2}\u{20d2}"],["\u{45}\u{20d2}\u{20d2}","\u{45}\u{20d2}\u{20d2}","\u{45}\u{20d2}\u{20d2}","\u{45}\u{20d2}\u{20d2}"],["\u{46}\u{20d2}\u{20d2}","\u{46}\u{20d2}\u{20d2}","\u{46}\u{20d2}\u{20d2}","\u{46}\u{20d2}\u{20d2}"],["\u{47}\u{20d2}\u{20d2}","\u{47}\u{20d2}\u{20d2}","\u{47}\u{20d2}\u{20d2}","\u{47}\u{20d2}\u{20d2}"],["\u{48}\u{20d2}\u{20d2}","\u{48}\u{20d2}\u{20d2}","\u{48}\u{20d2}\u{20d2}","\u{48}\u{20d2}\u{20d2}"],["\u{49}\u{20d2}\u{20d2}","\u{49}\u{20d2}\u{20d2}","\u{49}\u{20d2}\u{20d2}","\u{49}\u{20d2}\u{20d2}"],["\u{4a}\u{20d2}\u{20d2}","\u{4a}\u{20d2}\u{20d2}","\u{4a}\u{20d2}\u{20d2}","\u{4a}\u{20d2}\u{20d2}"],["\u{4b}\u{20d2}\u{20d2}","\u{4b}\u{20d2}\u{20d2}","\u{4b}\u{20d2}\u{20d2}","\u{4b}\u{20d2}\u{20d2}"],["\u{4c}\u{20d2}\u{20d2}","\u{4c}\u{20d2}\u{20d2}","\u{4c}\u{20d2}\u{20d2}","\u{4c}\u{20d2}\u{20d2}"],["\u{4d}\u{20d2}\u{20d2}","\u{4d}\u{20d2}\u{20d2}","\u{4d}\u{20d2}\u{20d2}","\u{4d}\u{20d2}\u{20d2}"],["\u{4e}\u{20d2}\u{20d2}","\u{4e}\u{20d2}\u{20d2}","\u{4e}\u{20d2}\u{20d2}","\u{4e}\u{20d2}\u{20d2}"],["\u{4f}\u{20d2}\u{20d2}","\u{4f}\u{20d2}\u{20d2}","\u{4f}\u{20d2}\u{20d2}","\u{4f}\u{20d2}\u{20d2}"],["\u{50}\u{20d2}\u{20d2}","\u{50}\u{20d2}\u{20d2}","\u{50}\u{20d2}\u{20d2}","\u{50}\u{20d2}\u{20d2}"],["\u{51}\u{20d2}\u{20d2}","\u{51}\u{20d2}\u{20d2}","\u{51}\u{20d2}\u{20d2}","\u{51}\u{20d2}\u{20d2}"],["\u{52}\u{20d2}\u{20d2}","\u{52}\u{20d2}\u{20d2}","\u{52}\u{20d2}\u{20d2}","\u{52}\u{20d2}\u{20d2}"],["\u{53}\u{20d2}\u{20d2}","\u{53}\u{20d2}\u{20d2}","\u{53}\u{20d2}\u{20d2}","\u{53}\u{20d2}\u{20d2}"],["\u{54}\u{20d2}\u{20d2}","\u{54}\u{20d2}\u{20d2}","\u{54}\u{20d2}\u{20d2}","\u{54}\u{20d2}\u{20d2}"],["\u{55}\u{20d2}\u{20d2}","\u{55}\u{20d2}\u{20d2}","\u{55}\u{20d2}\u{20d2}","\u{55}\u{20d2}\u{20d2}"],["\u{56}\u{20d2}\u{20d2}","\u{56}\u{20d2}\u{20d2}","\u{56}\u{20d2}\u{20d2}","\u{56}\u{20d2}\u{20d2}"],["\u{57}\u{20d2}\u{20d2}","\u{57}\u{20d2}\u{20d2}","\u{57}\u{20d2}\u{20d2}","\u{57}\u{20d2}\u{20d2}"],["\u{58}\u{20d2}\u{20d2}","\u{58}\u{20d2}\u{20d2}","\u{58}\u{20d2}\u{20d2}","\u{58}\u{20d2}\u{20d2}"],["\u{59}\u{20d2}\u{20d2}","\u{59}\u{20d2}\u{20d2}","\u{59}\u{20d2}\u{20d2}","\u{59}\u{20d2}\u{20d2}"],["\u{5a}\u{20d2}\u{20d2}","\u{5a}\u{20d2}\u{20d2}","\u{5a}\u{20d2}\u{20d2}","\u{5a}\u{20d2}\u{20d2}"],["\u{5b}\u{20d2}\u{20d2}","\u{5b}\u{20d2}\u{20d2}","\u{5b}\u{20d2}\u{20d2}","\u{5b}\u{20d2}\u{20d2}"],["\u{5c}\u{20d2}\u{20d2}","\u{5c}\u{20d2}\u{20d2}","\u{5c}\u{20d2}\u{20d2}","\u{5c}\u{20d2}\u{20d2}"],["\u{5d}\u{20d2}\u{20d2}","\u{5d}\u{20d2}\u{20d2}","\u{5d}\u{20d2}\u{20d2}","\u{5d}\u{20d2}\u{20d2}"],["\u{5e}\u{20d2}\u{20d2}","\u{5e}\u{20d2}\u{20d2}","\u{5e}\u{20d2}\u{20d2}","\u{5e}\u{20d2}\u{20d2}"],["\u{5f}\u{20d2}\u{20d2}","\u{5f}\u{20d2}\u{20d2}","\u{5f}\u{20d2}\u{20d2}","\u{5f}\u{20d2}\u{20d2}"],["\u{60}\u{20d2}\u{20d2}","\u{60}\u{20d2}\u{20d2}","\u{60}\u{20d2}\u{20d2}","\u{60}\u{20d2}\u{20d2}"],["\u{61}\u{20d2}\u{20d2}","\u{61}\u{20d2}\u{20d2}","\u{61}\u{20d2}\u{20d2}","\u{61}\u{20d2}\u{20d2}"],["\u{62}\u{20d2}\u{20d2}","\u{62}\u{20d2}\u{20d2}","\u{62}\u{20d2}\u{20d2}","\u{62}\u{20d2}\u{20d2}"],["\u{63}\u{20d2}\u{20d2}","\u{63}\u{20d2}\u{20d2}","\u{63}\u{20d2}\u{20d2}","\u{63}\u{20d2}\u{20d2}"],["\u{64}\u{20d2}\u{20d2}","\u{64}\u{20d2}\u{20d2}","\u{64}\u{20d2}\u{20d2}","\u{64}\u{20d2}\u{20d2}"],["\u{65}\u{20d2}\u{20d2}","\u{65}\u{20d2}\u{20d2}","\u{65}\u{20d2}\u{20d2}","\u{65}\u{20d2}\u{20d2}"],["\u{66}\u{20d2}\u{20d2}","\u{66}\u{20d2}\u{20d2}","\u{66}\u{20d2}\u{20d2}","\u{66}\u{20d2}\u{20d2}"],["\u{67}\u{20d2}\u{20d2}","\u{67}\u{20d2}\u{20d2}","\u{67}\u{20d2}\u{20d2}","\u{67}\u{20d2}\u{20d2}"],["\u{68}\u{20d2}\u{20d2}","\u{68}\u{20d2}\u{20d2}","\u{68}\u{20d2}\u{20d2}","\u{68}\u{20d2}\u{20d2}"],["\u{69}\u{20d2}\u{20d2}","\u{69}\u{20d2}\u{20d2}","\u{69}\u{20d2}\u{20d2}","\u{69}\u{20d2}\u{20d2}"],["\u{6a}\u{20d2}\u{20d2}","\u{6a}\u{20d2}\u{20d2}","\u{6a}\u{20d2}\u{20d2}","\u{6a}\u{20d2}\u{20d2}"],["\u{6b}\u{20d2}\u{20d2}","\u{6b}\u{20d2}\u{20d2}","\u{6b}\u{20d2}\u{20d2}","\u{6b}\u{20d2}\u{20d2}"],["\u{6c}\u{20d2}\u{20d2}","\u{6c}\u{20d2}\u{20d2}","\u{6c}\u{20d2}\u{20d2}","\u{6c}\u{20d2}\u{20d2}"],["\u{6d}\u{20d2}\u{20d2}","\u{6d}\u{20d2}\u{20d2}","\u{6d}\u{20d2}\u{20d2}","\u{6d}\u{20d2}\u{20d2}"],["\u{6e}\u{20d2}\u{20d2}","\u{6e}\u{20d2}\u{20d2}","\u{6e}\u{20d2}\u{20d2}","\u{6e}\u{20d2}\u{20d2}"],["\u{6f}\u{20d2}\u{20d2}","\u{6f}\u{20d2}\u{20d2}","\u{6f}\u{20d2}\u{20d2}","\u{6f}\u{20d2}\u{20d2}"],["\u{70}\u{20d2}\u{20d2}","\u{70}\u{20d2}\u{20d2}","\u{70}\u{20d2}\u{20d2}","\u{70}\u{20d2}\u{20d2}"],["\u{71}\u{20d2}\u{20d2}","\u{71}\u{20d2}\u{20d2}","\u{71}\u{20d2}\u{20d2}","\u{71}\u{20d2}\u{20d2}"],["\u{72}\u{20d2}\u{20d2}","\u{72}\u{20d2}\u{20d2}","\u{72}\u{20d2}\u{20d2}","\u{72}\u{20d2}\u{20d2}"],["\u{73}\u{20d2}\u{20d2}","\u{73}\u{20d2}\u{20d2}","\u{73}\u{20d2}\u{20d2}","\u{73}\u{20d2}\u{20d2}"],["\u{74}\u{20d2}\u{20d2}","\u{74}\u{20d2}\u{20d2}","\u{74}\u{20d2}\u{20d2}","\u{74}\u{20d2}\u{20d2}"],["\u{75}\u{20d2}\u{20d2}","\u{75}\u{20d2}\u{20d2}","\u{75}\u{20d2}\u{20d2}","\u{75}\u{20d2}\u{20d2}"],["\u{76}\u{20d2}\u{20d2}","\u{76}\u{20d2}\u{20d2}","\u{76}\u{20d2}\u{20d2}","\u{76}\u{20d2}\u{20d2}"],["\u{77}\u{20d2}\u{20d2}","\u{77}\u{20d2}\u{20d2}","\u{77}\u{20d2}\u{20d2}","\u{77}\u{20d2}\u{20d2}"],["\u{78}\u{20d2}\u{20d2}","\u{78}\u{20d2}\u{20d2}","\u{78}\u{20d2}\u{20d2}","\u{78}\u{20d2}\u{20d2}"],["\u{79}\u{20d2}\u{20d2}","\u{79}\u{20d2}\u{20d2}","\u{79}\u{20d2}\u{20d2}","\u{79}\u{20d2}\u{20d2}"],["\u{7a}\u{20d2}\u{20d2}","\u{7a}\u{20d2}\u{20d2}","\u{7a}\u{20d2}\u{20d2}","\u{7a}\u{20d2}\u{20d2}"]],
];

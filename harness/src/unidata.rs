//! Generated by tools/gen_unidata.py from the Unicode character database; do not edit.

/// (base, style, character)
#[rustfmt::skip]
pub static ALPHANUM: &[(char, &str, char)] = &[
    ('\u{30}', "Bold", '\u{1d7ce}'),
    ('\u{31}', "Bold", '\u{1d7cf}'),
    ('\u{32}', "Bold", '\u{1d7d0}'),
    ('\u{33}', "Bold", '\u{1d7d1}'),
    ('\u{34}', "Bold", '\u{1d7d2}'),
    ('\u{35}', "Bold", '\u{1d7d3}'),
    ('\u{36}', "Bold", '\u{1d7d4}'),
    ('\u{37}', "Bold", '\u{1d7d5}'),
    ('\u{38}', "Bold", '\u{1d7d6}'),
    ('\u{39}', "Bold", '\u{1d7d7}'),
    ('\u{41}', "Bold", '\u{1d400}'),
    ('\u{42}', "Bold", '\u{1d401}'),
    ('\u{43}', "Bold", '\u{1d402}'),
    ('\u{44}', "Bold", '\u{1d403}'),
    ('\u{45}', "Bold", '\u{1d404}'),
    ('\u{46}', "Bold", '\u{1d405}'),
    ('\u{47}', "Bold", '\u{1d406}'),
    ('\u{48}', "Bold", '\u{1d407}'),
    ('\u{49}', "Bold", '\u{1d408}'),
    ('\u{4a}', "Bold", '\u{1d409}'),
    ('\u{4b}', "Bold", '\u{1d40a}'),
    ('\u{4c}', "Bold", '\u{1d40b}'),
    ('\u{4d}', "Bold", '\u{1d40c}'),
    ('\u{4e}', "Bold", '\u{1d40d}'),
    ('\u{4f}', "Bold", '\u{1d40e}'),
    ('\u{50}', "Bold", '\u{1d40f}'),
    ('\u{51}', "Bold", '\u{1d410}'),
    ('\u{52}', "Bold", '\u{1d411}'),
    ('\u{53}', "Bold", '\u{1d412}'),
    ('\u{54}', "Bold", '\u{1d413}'),
    ('\u{55}', "Bold", '\u{1d414}'),
    ('\u{56}', "Bold", '\u{1d415}'),
    ('\u{57}', "Bold", '\u{1d416}'),
    ('\u{58}', "Bold", '\u{1d417}'),
    ('\u{59}', "Bold", '\u{1d418}'),
    ('\u{5a}', "Bold", '\u{1d419}'),
    ('\u{61}', "Bold", '\u{1d41a}'),
    ('\u{62}', "Bold", '\u{1d41b}'),
    ('\u{63}', "Bold", '\u{1d41c}'),
    ('\u{64}', "Bold", '\u{1d41d}'),
    ('\u{65}', "Bold", '\u{1d41e}'),
    ('\u{66}', "Bold", '\u{1d41f}'),
    ('\u{67}', "Bold", '\u{1d420}'),
    ('\u{68}', "Bold", '\u{1d421}'),
    ('\u{69}', "Bold", '\u{1d422}'),
    ('\u{6a}', "Bold", '\u{1d423}'),
    ('\u{6b}', "Bold", '\u{1d424}'),
    ('\u{6c}', "Bold", '\u{1d425}'),
    ('\u{6d}', "Bold", '\u{1d426}'),
    ('\u{6e}', "Bold", '\u{1d427}'),
    ('\u{6f}', "Bold", '\u{1d428}'),
    ('\u{70}', "Bold", '\u{1d429}'),
    ('\u{71}', "Bold", '\u{1d42a}'),
    ('\u{72}', "Bold", '\u{1d42b}'),
    ('\u{73}', "Bold", '\u{1d42c}'),
    ('\u{74}', "Bold", '\u{1d42d}'),
    ('\u{75}', "Bold", '\u{1d42e}'),
    ('\u{76}', "Bold", '\u{1d42f}'),
    ('\u{77}', "Bold", '\u{1d430}'),
    ('\u{78}', "Bold", '\u{1d431}'),
    ('\u{79}', "Bold", '\u{1d432}'),
    ('\u{7a}', "Bold", '\u{1d433}'),
    ('\u{391}', "Bold", '\u{1d6a8}'),
    ('\u{392}', "Bold", '\u{1d6a9}'),
    ('\u{393}', "Bold", '\u{1d6aa}'),
    ('\u{394}', "Bold", '\u{1d6ab}'),
    ('\u{395}', "Bold", '\u{1d6ac}'),
    ('\u{396}', "Bold", '\u{1d6ad}'),
    ('\u{397}', "Bold", '\u{1d6ae}'),
    ('\u{398}', "Bold", '\u{1d6af}'),
    ('\u{399}', "Bold", '\u{1d6b0}'),
    ('\u{39a}', "Bold", '\u{1d6b1}'),
    ('\u{39b}', "Bold", '\u{1d6b2}'),
    ('\u{39c}', "Bold", '\u{1d6b3}'),
    ('\u{39d}', "Bold", '\u{1d6b4}'),
    ('\u{39e}', "Bold", '\u{1d6b5}'),
    ('\u{39f}', "Bold", '\u{1d6b6}'),
    ('\u{3a0}', "Bold", '\u{1d6b7}'),
    ('\u{3a1}', "Bold", '\u{1d6b8}'),
    ('\u{3a3}', "Bold", '\u{1d6ba}'),
    ('\u{3a4}', "Bold", '\u{1d6bb}'),
    ('\u{3a5}', "Bold", '\u{1d6bc}'),
    ('\u{3a6}', "Bold", '\u{1d6bd}'),
    ('\u{3a7}', "Bold", '\u{1d6be}'),
    ('\u{3a8}', "Bold", '\u{1d6bf}'),
    ('\u{3a9}', "Bold", '\u{1d6c0}'),
    ('\u{3b1}', "Bold", '\u{1d6c2}'),
    ('\u{3b2}', "Bold", '\u{1d6c3}'),
    ('\u{3b3}', "Bold", '\u{1d6c4}'),
    ('\u{3b4}', "Bold", '\u{1d6c5}'),
    ('\u{3b5}', "Bold", '\u{1d6c6}'),
    ('\u{3b6}', "Bold", '\u{1d6c7}'),
    ('\u{3b7}', "Bold", '\u{1d6c8}'),
    ('\u{3b8}', "Bold", '\u{1d6c9}'),
    ('\u{3b9}', "Bold", '\u{1d6ca}'),
    ('\u{3ba}', "Bold", '\u{1d6cb}'),
    ('\u{3bb}', "Bold", '\u{1d6cc}'),
    ('\u{3bc}', "Bold", '\u{1d6cd}'),
    ('\u{3bd}', "Bold", '\u{1d6ce}'),
    ('\u{3be}', "Bold", '\u{1d6cf}'),
    ('\u{3bf}', "Bold", '\u{1d6d0}'),
    ('\u{3c0}', "Bold", '\u{1d6d1}'),
    ('\u{3c1}', "Bold", '\u{1d6d2}'),
    ('\u{3c2}', "Bold", '\u{1d6d3}'),
    ('\u{3c3}', "Bold", '\u{1d6d4}'),
    ('\u{3c4}', "Bold", '\u{1d6d5}'),
    ('\u{3c5}', "Bold", '\u{1d6d6}'),
    ('\u{3c6}', "Bold", '\u{1d6d7}'),
    ('\u{3c7}', "Bold", '\u{1d6d8}'),
    ('\u{3c8}', "Bold", '\u{1d6d9}'),
    ('\u{3c9}', "Bold", '\u{1d6da}'),
    ('\u{3d1}', "Bold", '\u{1d6dd}'),
    ('\u{3d5}', "Bold", '\u{1d6df}'),
    ('\u{3d6}', "Bold", '\u{1d6e1}'),
    ('\u{3dc}', "Bold", '\u{1d7ca}'),
    ('\u{3dd}', "Bold", '\u{1d7cb}'),
    ('\u{3f0}', "Bold", '\u{1d6de}'),
    ('\u{3f1}', "Bold", '\u{1d6e0}'),
    ('\u{3f4}', "Bold", '\u{1d6b9}'),
    ('\u{3f5}', "Bold", '\u{1d6dc}'),
    ('\u{2202}', "Bold", '\u{1d6db}'),
    ('\u{2207}', "Bold", '\u{1d6c1}'),
    ('\u{41}', "BoldFraktur", '\u{1d56c}'),
    ('\u{42}', "BoldFraktur", '\u{1d56d}'),
    ('\u{43}', "BoldFraktur", '\u{1d56e}'),
    ('\u{44}', "BoldFraktur", '\u{1d56f}'),
    ('\u{45}', "BoldFraktur", '\u{1d570}'),
    ('\u{46}', "BoldFraktur", '\u{1d571}'),
    ('\u{47}', "BoldFraktur", '\u{1d572}'),
    ('\u{48}', "BoldFraktur", '\u{1d573}'),
    ('\u{49}', "BoldFraktur", '\u{1d574}'),
    ('\u{4a}', "BoldFraktur", '\u{1d575}'),
    ('\u{4b}', "BoldFraktur", '\u{1d576}'),
    ('\u{4c}', "BoldFraktur", '\u{1d577}'),
    ('\u{4d}', "BoldFraktur", '\u{1d578}'),
    ('\u{4e}', "BoldFraktur", '\u{1d579}'),
    ('\u{4f}', "BoldFraktur", '\u{1d57a}'),
    ('\u{50}', "BoldFraktur", '\u{1d57b}'),
    ('\u{51}', "BoldFraktur", '\u{1d57c}'),
    ('\u{52}', "BoldFraktur", '\u{1d57d}'),
    ('\u{53}', "BoldFraktur", '\u{1d57e}'),
    ('\u{54}', "BoldFraktur", '\u{1d57f}'),
    ('\u{55}', "BoldFraktur", '\u{1d580}'),
    ('\u{56}', "BoldFraktur", '\u{1d581}'),
    ('\u{57}', "BoldFraktur", '\u{1d582}'),
    ('\u{58}', "BoldFraktur", '\u{1d583}'),
    ('\u{59}', "BoldFraktur", '\u{1d584}'),
    ('\u{5a}', "BoldFraktur", '\u{1d585}'),
    ('\u{61}', "BoldFraktur", '\u{1d586}'),
    ('\u{62}', "BoldFraktur", '\u{1d587}'),
    ('\u{63}', "BoldFraktur", '\u{1d588}'),
    ('\u{64}', "BoldFraktur", '\u{1d589}'),
    ('\u{65}', "BoldFraktur", '\u{1d58a}'),
    ('\u{66}', "BoldFraktur", '\u{1d58b}'),
    ('\u{67}', "BoldFraktur", '\u{1d58c}'),
    ('\u{68}', "BoldFraktur", '\u{1d58d}'),
    ('\u{69}', "BoldFraktur", '\u{1d58e}'),
    ('\u{6a}', "BoldFraktur", '\u{1d58f}'),
    ('\u{6b}', "BoldFraktur", '\u{1d590}'),
    ('\u{6c}', "BoldFraktur", '\u{1d591}'),
    ('\u{6d}', "BoldFraktur", '\u{1d592}'),
    ('\u{6e}', "BoldFraktur", '\u{1d593}'),
    ('\u{6f}', "BoldFraktur", '\u{1d594}'),
    ('\u{70}', "BoldFraktur", '\u{1d595}'),
    ('\u{71}', "BoldFraktur", '\u{1d596}'),
    ('\u{72}', "BoldFraktur", '\u{1d597}'),
    ('\u{73}', "BoldFraktur", '\u{1d598}'),
    ('\u{74}', "BoldFraktur", '\u{1d599}'),
    ('\u{75}', "BoldFraktur", '\u{1d59a}'),
    ('\u{76}', "BoldFraktur", '\u{1d59b}'),
    ('\u{77}', "BoldFraktur", '\u{1d59c}'),
    ('\u{78}', "BoldFraktur", '\u{1d59d}'),
    ('\u{79}', "BoldFraktur", '\u{1d59e}'),
    ('\u{7a}', "BoldFraktur", '\u{1d59f}'),
    ('\u{41}', "BoldItalic", '\u{1d468}'),
    ('\u{42}', "BoldItalic", '\u{1d469}'),
    ('\u{43}', "BoldItalic", '\u{1d46a}'),
    ('\u{44}', "BoldItalic", '\u{1d46b}'),
    ('\u{45}', "BoldItalic", '\u{1d46c}'),
    ('\u{46}', "BoldItalic", '\u{1d46d}'),
    ('\u{47}', "BoldItalic", '\u{1d46e}'),
    ('\u{48}', "BoldItalic", '\u{1d46f}'),
    ('\u{49}', "BoldItalic", '\u{1d470}'),
    ('\u{4a}', "BoldItalic", '\u{1d471}'),
    ('\u{4b}', "BoldItalic", '\u{1d472}'),
    ('\u{4c}', "BoldItalic", '\u{1d473}'),
    ('\u{4d}', "BoldItalic", '\u{1d474}'),
    ('\u{4e}', "BoldItalic", '\u{1d475}'),
    ('\u{4f}', "BoldItalic", '\u{1d476}'),
    ('\u{50}', "BoldItalic", '\u{1d477}'),
    ('\u{51}', "BoldItalic", '\u{1d478}'),
    ('\u{52}', "BoldItalic", '\u{1d479}'),
    ('\u{53}', "BoldItalic", '\u{1d47a}'),
    ('\u{54}', "BoldItalic", '\u{1d47b}'),
    ('\u{55}', "BoldItalic", '\u{1d47c}'),
    ('\u{56}', "BoldItalic", '\u{1d47d}'),
    ('\u{57}', "BoldItalic", '\u{1d47e}'),
    ('\u{58}', "BoldItalic", '\u{1d47f}'),
    ('\u{59}', "BoldItalic", '\u{1d480}'),
    ('\u{5a}', "BoldItalic", '\u{1d481}'),
    ('\u{61}', "BoldItalic", '\u{1d482}'),
    ('\u{62}', "BoldItalic", '\u{1d483}'),
    ('\u{63}', "BoldItalic", '\u{1d484}'),
    ('\u{64}', "BoldItalic", '\u{1d485}'),
    ('\u{65}', "BoldItalic", '\u{1d486}'),
    ('\u{66}', "BoldItalic", '\u{1d487}'),
    ('\u{67}', "BoldItalic", '\u{1d488}'),
    ('\u{68}', "BoldItalic", '\u{1d489}'),
    ('\u{69}', "BoldItalic", '\u{1d48a}'),
    ('\u{6a}', "BoldItalic", '\u{1d48b}'),
    ('\u{6b}', "BoldItalic", '\u{1d48c}'),
    ('\u{6c}', "BoldItalic", '\u{1d48d}'),
    ('\u{6d}', "BoldItalic", '\u{1d48e}'),
    ('\u{6e}', "BoldItalic", '\u{1d48f}'),
    ('\u{6f}', "BoldItalic", '\u{1d490}'),
    ('\u{70}', "BoldItalic", '\u{1d491}'),
    ('\u{71}', "BoldItalic", '\u{1d492}'),
    ('\u{72}', "BoldItalic", '\u{1d493}'),
    ('\u{73}', "BoldItalic", '\u{1d494}'),
    ('\u{74}', "BoldItalic", '\u{1d495}'),
    ('\u{75}', "BoldItalic", '\u{1d496}'),
    ('\u{76}', "BoldItalic", '\u{1d497}'),
    ('\u{77}', "BoldItalic", '\u{1d498}'),
    ('\u{78}', "BoldItalic", '\u{1d499}'),
    ('\u{79}', "BoldItalic", '\u{1d49a}'),
    ('\u{7a}', "BoldItalic", '\u{1d49b}'),
    ('\u{391}', "BoldItalic", '\u{1d71c}'),
    ('\u{392}', "BoldItalic", '\u{1d71d}'),
    ('\u{393}', "BoldItalic", '\u{1d71e}'),
    ('\u{394}', "BoldItalic", '\u{1d71f}'),
    ('\u{395}', "BoldItalic", '\u{1d720}'),
    ('\u{396}', "BoldItalic", '\u{1d721}'),
    ('\u{397}', "BoldItalic", '\u{1d722}'),
    ('\u{398}', "BoldItalic", '\u{1d723}'),
    ('\u{399}', "BoldItalic", '\u{1d724}'),
    ('\u{39a}', "BoldItalic", '\u{1d725}'),
    ('\u{39b}', "BoldItalic", '\u{1d726}'),
    ('\u{39c}', "BoldItalic", '\u{1d727}'),
    ('\u{39d}', "BoldItalic", '\u{1d728}'),
    ('\u{39e}', "BoldItalic", '\u{1d729}'),
    ('\u{39f}', "BoldItalic", '\u{1d72a}'),
    ('\u{3a0}', "BoldItalic", '\u{1d72b}'),
    ('\u{3a1}', "BoldItalic", '\u{1d72c}'),
    ('\u{3a3}', "BoldItalic", '\u{1d72e}'),
    ('\u{3a4}', "BoldItalic", '\u{1d72f}'),
    ('\u{3a5}', "BoldItalic", '\u{1d730}'),
    ('\u{3a6}', "BoldItalic", '\u{1d731}'),
    ('\u{3a7}', "BoldItalic", '\u{1d732}'),
    ('\u{3a8}', "BoldItalic", '\u{1d733}'),
    ('\u{3a9}', "BoldItalic", '\u{1d734}'),
    ('\u{3b1}', "BoldItalic", '\u{1d736}'),
    ('\u{3b2}', "BoldItalic", '\u{1d737}'),
    ('\u{3b3}', "BoldItalic", '\u{1d738}'),
    ('\u{3b4}', "BoldItalic", '\u{1d739}'),
    ('\u{3b5}', "BoldItalic", '\u{1d73a}'),
    ('\u{3b6}', "BoldItalic", '\u{1d73b}'),
    ('\u{3b7}', "BoldItalic", '\u{1d73c}'),
    ('\u{3b8}', "BoldItalic", '\u{1d73d}'),
    ('\u{3b9}', "BoldItalic", '\u{1d73e}'),
    ('\u{3ba}', "BoldItalic", '\u{1d73f}'),
    ('\u{3bb}', "BoldItalic", '\u{1d740}'),
    ('\u{3bc}', "BoldItalic", '\u{1d741}'),
    ('\u{3bd}', "BoldItalic", '\u{1d742}'),
    ('\u{3be}', "BoldItalic", '\u{1d743}'),
    ('\u{3bf}', "BoldItalic", '\u{1d744}'),
    ('\u{3c0}', "BoldItalic", '\u{1d745}'),
    ('\u{3c1}', "BoldItalic", '\u{1d746}'),
    ('\u{3c2}', "BoldItalic", '\u{1d747}'),
    ('\u{3c3}', "BoldItalic", '\u{1d748}'),
    ('\u{3c4}', "BoldItalic", '\u{1d749}'),
    ('\u{3c5}', "BoldItalic", '\u{1d74a}'),
    ('\u{3c6}', "BoldItalic", '\u{1d74b}'),
    ('\u{3c7}', "BoldItalic", '\u{1d74c}'),
    ('\u{3c8}', "BoldItalic", '\u{1d74d}'),
    ('\u{3c9}', "BoldItalic", '\u{1d74e}'),
    ('\u{3d1}', "BoldItalic", '\u{1d751}'),
    ('\u{3d5}', "BoldItalic", '\u{1d753}'),
    ('\u{3d6}', "BoldItalic", '\u{1d755}'),
    ('\u{3f0}', "BoldItalic", '\u{1d752}'),
    ('\u{3f1}', "BoldItalic", '\u{1d754}'),
    ('\u{3f4}', "BoldItalic", '\u{1d72d}'),
    ('\u{3f5}', "BoldItalic", '\u{1d750}'),
    ('\u{2202}', "BoldItalic", '\u{1d74f}'),
    ('\u{2207}', "BoldItalic", '\u{1d735}'),
    ('\u{41}', "BoldScript", '\u{1d4d0}'),
    ('\u{42}', "BoldScript", '\u{1d4d1}'),
    ('\u{43}', "BoldScript", '\u{1d4d2}'),
    ('\u{44}', "BoldScript", '\u{1d4d3}'),
    ('\u{45}', "BoldScript", '\u{1d4d4}'),
    ('\u{46}', "BoldScript", '\u{1d4d5}'),
    ('\u{47}', "BoldScript", '\u{1d4d6}'),
    ('\u{48}', "BoldScript", '\u{1d4d7}'),
    ('\u{49}', "BoldScript", '\u{1d4d8}'),
    ('\u{4a}', "BoldScript", '\u{1d4d9}'),
    ('\u{4b}', "BoldScript", '\u{1d4da}'),
    ('\u{4c}', "BoldScript", '\u{1d4db}'),
    ('\u{4d}', "BoldScript", '\u{1d4dc}'),
    ('\u{4e}', "BoldScript", '\u{1d4dd}'),
    ('\u{4f}', "BoldScript", '\u{1d4de}'),
    ('\u{50}', "BoldScript", '\u{1d4df}'),
    ('\u{51}', "BoldScript", '\u{1d4e0}'),
    ('\u{52}', "BoldScript", '\u{1d4e1}'),
    ('\u{53}', "BoldScript", '\u{1d4e2}'),
    ('\u{54}', "BoldScript", '\u{1d4e3}'),
    ('\u{55}', "BoldScript", '\u{1d4e4}'),
    ('\u{56}', "BoldScript", '\u{1d4e5}'),
    ('\u{57}', "BoldScript", '\u{1d4e6}'),
    ('\u{58}', "BoldScript", '\u{1d4e7}'),
    ('\u{59}', "BoldScript", '\u{1d4e8}'),
    ('\u{5a}', "BoldScript", '\u{1d4e9}'),
    ('\u{61}', "BoldScript", '\u{1d4ea}'),
    ('\u{62}', "BoldScript", '\u{1d4eb}'),
    ('\u{63}', "BoldScript", '\u{1d4ec}'),
    ('\u{64}', "BoldScript", '\u{1d4ed}'),
    ('\u{65}', "BoldScript", '\u{1d4ee}'),
    ('\u{66}', "BoldScript", '\u{1d4ef}'),
    ('\u{67}', "BoldScript", '\u{1d4f0}'),
    ('\u{68}', "BoldScript", '\u{1d4f1}'),
    ('\u{69}', "BoldScript", '\u{1d4f2}'),
    ('\u{6a}', "BoldScript", '\u{1d4f3}'),
    ('\u{6b}', "BoldScript", '\u{1d4f4}'),
    ('\u{6c}', "BoldScript", '\u{1d4f5}'),
    ('\u{6d}', "BoldScript", '\u{1d4f6}'),
    ('\u{6e}', "BoldScript", '\u{1d4f7}'),
    ('\u{6f}', "BoldScript", '\u{1d4f8}'),
    ('\u{70}', "BoldScript", '\u{1d4f9}'),
    ('\u{71}', "BoldScript", '\u{1d4fa}'),
    ('\u{72}', "BoldScript", '\u{1d4fb}'),
    ('\u{73}', "BoldScript", '\u{1d4fc}'),
    ('\u{74}', "BoldScript", '\u{1d4fd}'),
    ('\u{75}', "BoldScript", '\u{1d4fe}'),
    ('\u{76}', "BoldScript", '\u{1d4ff}'),
    ('\u{77}', "BoldScript", '\u{1d500}'),
    ('\u{78}', "BoldScript", '\u{1d501}'),
    ('\u{79}', "BoldScript", '\u{1d502}'),
    ('\u{7a}', "BoldScript", '\u{1d503}'),
    ('\u{30}', "DoubleStruck", '\u{1d7d8}'),
    ('\u{31}', "DoubleStruck", '\u{1d7d9}'),
    ('\u{32}', "DoubleStruck", '\u{1d7da}'),
    ('\u{33}', "DoubleStruck", '\u{1d7db}'),
    ('\u{34}', "DoubleStruck", '\u{1d7dc}'),
    ('\u{35}', "DoubleStruck", '\u{1d7dd}'),
    ('\u{36}', "DoubleStruck", '\u{1d7de}'),
    ('\u{37}', "DoubleStruck", '\u{1d7df}'),
    ('\u{38}', "DoubleStruck", '\u{1d7e0}'),
    ('\u{39}', "DoubleStruck", '\u{1d7e1}'),
    ('\u{41}', "DoubleStruck", '\u{1d538}'),
    ('\u{42}', "DoubleStruck", '\u{1d539}'),
    ('\u{43}', "DoubleStruck", '\u{2102}'),
    ('\u{44}', "DoubleStruck", '\u{1d53b}'),
    ('\u{45}', "DoubleStruck", '\u{1d53c}'),
    ('\u{46}', "DoubleStruck", '\u{1d53d}'),
    ('\u{47}', "DoubleStruck", '\u{1d53e}'),
    ('\u{48}', "DoubleStruck", '\u{210d}'),
    ('\u{49}', "DoubleStruck", '\u{1d540}'),
    ('\u{4a}', "DoubleStruck", '\u{1d541}'),
    ('\u{4b}', "DoubleStruck", '\u{1d542}'),
    ('\u{4c}', "DoubleStruck", '\u{1d543}'),
    ('\u{4d}', "DoubleStruck", '\u{1d544}'),
    ('\u{4e}', "DoubleStruck", '\u{2115}'),
    ('\u{4f}', "DoubleStruck", '\u{1d546}'),
    ('\u{50}', "DoubleStruck", '\u{2119}'),
    ('\u{51}', "DoubleStruck", '\u{211a}'),
    ('\u{52}', "DoubleStruck", '\u{211d}'),
    ('\u{53}', "DoubleStruck", '\u{1d54a}'),
    ('\u{54}', "DoubleStruck", '\u{1d54b}'),
    ('\u{55}', "DoubleStruck", '\u{1d54c}'),
    ('\u{56}', "DoubleStruck", '\u{1d54d}'),
    ('\u{57}', "DoubleStruck", '\u{1d54e}'),
    ('\u{58}', "DoubleStruck", '\u{1d54f}'),
    ('\u{59}', "DoubleStruck", '\u{1d550}'),
    ('\u{5a}', "DoubleStruck", '\u{2124}'),
    ('\u{61}', "DoubleStruck", '\u{1d552}'),
    ('\u{62}', "DoubleStruck", '\u{1d553}'),
    ('\u{63}', "DoubleStruck", '\u{1d554}'),
    ('\u{64}', "DoubleStruck", '\u{1d555}'),
    ('\u{65}', "DoubleStruck", '\u{1d556}'),
    ('\u{66}', "DoubleStruck", '\u{1d557}'),
    ('\u{67}', "DoubleStruck", '\u{1d558}'),
    ('\u{68}', "DoubleStruck", '\u{1d559}'),
    ('\u{69}', "DoubleStruck", '\u{1d55a}'),
    ('\u{6a}', "DoubleStruck", '\u{1d55b}'),
    ('\u{6b}', "DoubleStruck", '\u{1d55c}'),
    ('\u{6c}', "DoubleStruck", '\u{1d55d}'),
    ('\u{6d}', "DoubleStruck", '\u{1d55e}'),
    ('\u{6e}', "DoubleStruck", '\u{1d55f}'),
    ('\u{6f}', "DoubleStruck", '\u{1d560}'),
    ('\u{70}', "DoubleStruck", '\u{1d561}'),
    ('\u{71}', "DoubleStruck", '\u{1d562}'),
    ('\u{72}', "DoubleStruck", '\u{1d563}'),
    ('\u{73}', "DoubleStruck", '\u{1d564}'),
    ('\u{74}', "DoubleStruck", '\u{1d565}'),
    ('\u{75}', "DoubleStruck", '\u{1d566}'),
    ('\u{76}', "DoubleStruck", '\u{1d567}'),
    ('\u{77}', "DoubleStruck", '\u{1d568}'),
    ('\u{78}', "DoubleStruck", '\u{1d569}'),
    ('\u{79}', "DoubleStruck", '\u{1d56a}'),
    ('\u{7a}', "DoubleStruck", '\u{1d56b}'),
    ('\u{393}', "DoubleStruck", '\u{213e}'),
    ('\u{3a0}', "DoubleStruck", '\u{213f}'),
    ('\u{3b3}', "DoubleStruck", '\u{213d}'),
    ('\u{3c0}', "DoubleStruck", '\u{213c}'),
    ('\u{2211}', "DoubleStruck", '\u{2140}'),
    ('\u{41}', "Fraktur", '\u{1d504}'),
    ('\u{42}', "Fraktur", '\u{1d505}'),
    ('\u{43}', "Fraktur", '\u{212d}'),
    ('\u{44}', "Fraktur", '\u{1d507}'),
    ('\u{45}', "Fraktur", '\u{1d508}'),
    ('\u{46}', "Fraktur", '\u{1d509}'),
    ('\u{47}', "Fraktur", '\u{1d50a}'),
    ('\u{48}', "Fraktur", '\u{210c}'),
    ('\u{49}', "Fraktur", '\u{2111}'),
    ('\u{4a}', "Fraktur", '\u{1d50d}'),
    ('\u{4b}', "Fraktur", '\u{1d50e}'),
    ('\u{4c}', "Fraktur", '\u{1d50f}'),
    ('\u{4d}', "Fraktur", '\u{1d510}'),
    ('\u{4e}', "Fraktur", '\u{1d511}'),
    ('\u{4f}', "Fraktur", '\u{1d512}'),
    ('\u{50}', "Fraktur", '\u{1d513}'),
    ('\u{51}', "Fraktur", '\u{1d514}'),
    ('\u{52}', "Fraktur", '\u{211c}'),
    ('\u{53}', "Fraktur", '\u{1d516}'),
    ('\u{54}', "Fraktur", '\u{1d517}'),
    ('\u{55}', "Fraktur", '\u{1d518}'),
    ('\u{56}', "Fraktur", '\u{1d519}'),
    ('\u{57}', "Fraktur", '\u{1d51a}'),
    ('\u{58}', "Fraktur", '\u{1d51b}'),
    ('\u{59}', "Fraktur", '\u{1d51c}'),
    ('\u{5a}', "Fraktur", '\u{2128}'),
    ('\u{61}', "Fraktur", '\u{1d51e}'),
    ('\u{62}', "Fraktur", '\u{1d51f}'),
    ('\u{63}', "Fraktur", '\u{1d520}'),
    ('\u{64}', "Fraktur", '\u{1d521}'),
    ('\u{65}', "Fraktur", '\u{1d522}'),
    ('\u{66}', "Fraktur", '\u{1d523}'),
    ('\u{67}', "Fraktur", '\u{1d524}'),
    ('\u{68}', "Fraktur", '\u{1d525}'),
    ('\u{69}', "Fraktur", '\u{1d526}'),
    ('\u{6a}', "Fraktur", '\u{1d527}'),
    ('\u{6b}', "Fraktur", '\u{1d528}'),
    ('\u{6c}', "Fraktur", '\u{1d529}'),
    ('\u{6d}', "Fraktur", '\u{1d52a}'),
    ('\u{6e}', "Fraktur", '\u{1d52b}'),
    ('\u{6f}', "Fraktur", '\u{1d52c}'),
    ('\u{70}', "Fraktur", '\u{1d52d}'),
    ('\u{71}', "Fraktur", '\u{1d52e}'),
    ('\u{72}', "Fraktur", '\u{1d52f}'),
    ('\u{73}', "Fraktur", '\u{1d530}'),
    ('\u{74}', "Fraktur", '\u{1d531}'),
    ('\u{75}', "Fraktur", '\u{1d532}'),
    ('\u{76}', "Fraktur", '\u{1d533}'),
    ('\u{77}', "Fraktur", '\u{1d534}'),
    ('\u{78}', "Fraktur", '\u{1d535}'),
    ('\u{79}', "Fraktur", '\u{1d536}'),
    ('\u{7a}', "Fraktur", '\u{1d537}'),
    ('\u{41}', "Italic", '\u{1d434}'),
    ('\u{42}', "Italic", '\u{1d435}'),
    ('\u{43}', "Italic", '\u{1d436}'),
    ('\u{44}', "Italic", '\u{1d437}'),
    ('\u{45}', "Italic", '\u{1d438}'),
    ('\u{46}', "Italic", '\u{1d439}'),
    ('\u{47}', "Italic", '\u{1d43a}'),
    ('\u{48}', "Italic", '\u{1d43b}'),
    ('\u{49}', "Italic", '\u{1d43c}'),
    ('\u{4a}', "Italic", '\u{1d43d}'),
    ('\u{4b}', "Italic", '\u{1d43e}'),
    ('\u{4c}', "Italic", '\u{1d43f}'),
    ('\u{4d}', "Italic", '\u{1d440}'),
    ('\u{4e}', "Italic", '\u{1d441}'),
    ('\u{4f}', "Italic", '\u{1d442}'),
    ('\u{50}', "Italic", '\u{1d443}'),
    ('\u{51}', "Italic", '\u{1d444}'),
    ('\u{52}', "Italic", '\u{1d445}'),
    ('\u{53}', "Italic", '\u{1d446}'),
    ('\u{54}', "Italic", '\u{1d447}'),
    ('\u{55}', "Italic", '\u{1d448}'),
    ('\u{56}', "Italic", '\u{1d449}'),
    ('\u{57}', "Italic", '\u{1d44a}'),
    ('\u{58}', "Italic", '\u{1d44b}'),
    ('\u{59}', "Italic", '\u{1d44c}'),
    ('\u{5a}', "Italic", '\u{1d44d}'),
    ('\u{61}', "Italic", '\u{1d44e}'),
    ('\u{62}', "Italic", '\u{1d44f}'),
    ('\u{63}', "Italic", '\u{1d450}'),
    ('\u{64}', "Italic", '\u{1d451}'),
    ('\u{65}', "Italic", '\u{1d452}'),
    ('\u{66}', "Italic", '\u{1d453}'),
    ('\u{67}', "Italic", '\u{1d454}'),
    ('\u{68}', "Italic", '\u{210e}'),
    ('\u{69}', "Italic", '\u{1d456}'),
    ('\u{6a}', "Italic", '\u{1d457}'),
    ('\u{6b}', "Italic", '\u{1d458}'),
    ('\u{6c}', "Italic", '\u{1d459}'),
    ('\u{6d}', "Italic", '\u{1d45a}'),
    ('\u{6e}', "Italic", '\u{1d45b}'),
    ('\u{6f}', "Italic", '\u{1d45c}'),
    ('\u{70}', "Italic", '\u{1d45d}'),
    ('\u{71}', "Italic", '\u{1d45e}'),
    ('\u{72}', "Italic", '\u{1d45f}'),
    ('\u{73}', "Italic", '\u{1d460}'),
    ('\u{74}', "Italic", '\u{1d461}'),
    ('\u{75}', "Italic", '\u{1d462}'),
    ('\u{76}', "Italic", '\u{1d463}'),
    ('\u{77}', "Italic", '\u{1d464}'),
    ('\u{78}', "Italic", '\u{1d465}'),
    ('\u{79}', "Italic", '\u{1d466}'),
    ('\u{7a}', "Italic", '\u{1d467}'),
    ('\u{131}', "Italic", '\u{1d6a4}'),
    ('\u{237}', "Italic", '\u{1d6a5}'),
    ('\u{391}', "Italic", '\u{1d6e2}'),
    ('\u{392}', "Italic", '\u{1d6e3}'),
    ('\u{393}', "Italic", '\u{1d6e4}'),
    ('\u{394}', "Italic", '\u{1d6e5}'),
    ('\u{395}', "Italic", '\u{1d6e6}'),
    ('\u{396}', "Italic", '\u{1d6e7}'),
    ('\u{397}', "Italic", '\u{1d6e8}'),
    ('\u{398}', "Italic", '\u{1d6e9}'),
    ('\u{399}', "Italic", '\u{1d6ea}'),
    ('\u{39a}', "Italic", '\u{1d6eb}'),
    ('\u{39b}', "Italic", '\u{1d6ec}'),
    ('\u{39c}', "Italic", '\u{1d6ed}'),
    ('\u{39d}', "Italic", '\u{1d6ee}'),
    ('\u{39e}', "Italic", '\u{1d6ef}'),
    ('\u{39f}', "Italic", '\u{1d6f0}'),
    ('\u{3a0}', "Italic", '\u{1d6f1}'),
    ('\u{3a1}', "Italic", '\u{1d6f2}'),
    ('\u{3a3}', "Italic", '\u{1d6f4}'),
    ('\u{3a4}', "Italic", '\u{1d6f5}'),
    ('\u{3a5}', "Italic", '\u{1d6f6}'),
    ('\u{3a6}', "Italic", '\u{1d6f7}'),
    ('\u{3a7}', "Italic", '\u{1d6f8}'),
    ('\u{3a8}', "Italic", '\u{1d6f9}'),
    ('\u{3a9}', "Italic", '\u{1d6fa}'),
    ('\u{3b1}', "Italic", '\u{1d6fc}'),
    ('\u{3b2}', "Italic", '\u{1d6fd}'),
    ('\u{3b3}', "Italic", '\u{1d6fe}'),
    ('\u{3b4}', "Italic", '\u{1d6ff}'),
    ('\u{3b5}', "Italic", '\u{1d700}'),
    ('\u{3b6}', "Italic", '\u{1d701}'),
    ('\u{3b7}', "Italic", '\u{1d702}'),
    ('\u{3b8}', "Italic", '\u{1d703}'),
    ('\u{3b9}', "Italic", '\u{1d704}'),
    ('\u{3ba}', "Italic", '\u{1d705}'),
    ('\u{3bb}', "Italic", '\u{1d706}'),
    ('\u{3bc}', "Italic", '\u{1d707}'),
    ('\u{3bd}', "Italic", '\u{1d708}'),
    ('\u{3be}', "Italic", '\u{1d709}'),
    ('\u{3bf}', "Italic", '\u{1d70a}'),
    ('\u{3c0}', "Italic", '\u{1d70b}'),
    ('\u{3c1}', "Italic", '\u{1d70c}'),
    ('\u{3c2}', "Italic", '\u{1d70d}'),
    ('\u{3c3}', "Italic", '\u{1d70e}'),
    ('\u{3c4}', "Italic", '\u{1d70f}'),
    ('\u{3c5}', "Italic", '\u{1d710}'),
    ('\u{3c6}', "Italic", '\u{1d711}'),
    ('\u{3c7}', "Italic", '\u{1d712}'),
    ('\u{3c8}', "Italic", '\u{1d713}'),
    ('\u{3c9}', "Italic", '\u{1d714}'),
    ('\u{3d1}', "Italic", '\u{1d717}'),
    ('\u{3d5}', "Italic", '\u{1d719}'),
    ('\u{3d6}', "Italic", '\u{1d71b}'),
    ('\u{3f0}', "Italic", '\u{1d718}'),
    ('\u{3f1}', "Italic", '\u{1d71a}'),
    ('\u{3f4}', "Italic", '\u{1d6f3}'),
    ('\u{3f5}', "Italic", '\u{1d716}'),
    ('\u{2202}', "Italic", '\u{1d715}'),
    ('\u{2207}', "Italic", '\u{1d6fb}'),
    ('\u{30}', "Mono", '\u{1d7f6}'),
    ('\u{31}', "Mono", '\u{1d7f7}'),
    ('\u{32}', "Mono", '\u{1d7f8}'),
    ('\u{33}', "Mono", '\u{1d7f9}'),
    ('\u{34}', "Mono", '\u{1d7fa}'),
    ('\u{35}', "Mono", '\u{1d7fb}'),
    ('\u{36}', "Mono", '\u{1d7fc}'),
    ('\u{37}', "Mono", '\u{1d7fd}'),
    ('\u{38}', "Mono", '\u{1d7fe}'),
    ('\u{39}', "Mono", '\u{1d7ff}'),
    ('\u{41}', "Mono", '\u{1d670}'),
    ('\u{42}', "Mono", '\u{1d671}'),
    ('\u{43}', "Mono", '\u{1d672}'),
    ('\u{44}', "Mono", '\u{1d673}'),
    ('\u{45}', "Mono", '\u{1d674}'),
    ('\u{46}', "Mono", '\u{1d675}'),
    ('\u{47}', "Mono", '\u{1d676}'),
    ('\u{48}', "Mono", '\u{1d677}'),
    ('\u{49}', "Mono", '\u{1d678}'),
    ('\u{4a}', "Mono", '\u{1d679}'),
    ('\u{4b}', "Mono", '\u{1d67a}'),
    ('\u{4c}', "Mono", '\u{1d67b}'),
    ('\u{4d}', "Mono", '\u{1d67c}'),
    ('\u{4e}', "Mono", '\u{1d67d}'),
    ('\u{4f}', "Mono", '\u{1d67e}'),
    ('\u{50}', "Mono", '\u{1d67f}'),
    ('\u{51}', "Mono", '\u{1d680}'),
    ('\u{52}', "Mono", '\u{1d681}'),
    ('\u{53}', "Mono", '\u{1d682}'),
    ('\u{54}', "Mono", '\u{1d683}'),
    ('\u{55}', "Mono", '\u{1d684}'),
    ('\u{56}', "Mono", '\u{1d685}'),
    ('\u{57}', "Mono", '\u{1d686}'),
    ('\u{58}', "Mono", '\u{1d687}'),
    ('\u{59}', "Mono", '\u{1d688}'),
    ('\u{5a}', "Mono", '\u{1d689}'),
    ('\u{61}', "Mono", '\u{1d68a}'),
    ('\u{62}', "Mono", '\u{1d68b}'),
    ('\u{63}', "Mono", '\u{1d68c}'),
    ('\u{64}', "Mono", '\u{1d68d}'),
    ('\u{65}', "Mono", '\u{1d68e}'),
    ('\u{66}', "Mono", '\u{1d68f}'),
    ('\u{67}', "Mono", '\u{1d690}'),
    ('\u{68}', "Mono", '\u{1d691}'),
    ('\u{69}', "Mono", '\u{1d692}'),
    ('\u{6a}', "Mono", '\u{1d693}'),
    ('\u{6b}', "Mono", '\u{1d694}'),
    ('\u{6c}', "Mono", '\u{1d695}'),
    ('\u{6d}', "Mono", '\u{1d696}'),
    ('\u{6e}', "Mono", '\u{1d697}'),
    ('\u{6f}', "Mono", '\u{1d698}'),
    ('\u{70}', "Mono", '\u{1d699}'),
    ('\u{71}', "Mono", '\u{1d69a}'),
    ('\u{72}', "Mono", '\u{1d69b}'),
    ('\u{73}', "Mono", '\u{1d69c}'),
    ('\u{74}', "Mono", '\u{1d69d}'),
    ('\u{75}', "Mono", '\u{1d69e}'),
    ('\u{76}', "Mono", '\u{1d69f}'),
    ('\u{77}', "Mono", '\u{1d6a0}'),
    ('\u{78}', "Mono", '\u{1d6a1}'),
    ('\u{79}', "Mono", '\u{1d6a2}'),
    ('\u{7a}', "Mono", '\u{1d6a3}'),
    ('\u{30}', "Sans", '\u{1d7e2}'),
    ('\u{31}', "Sans", '\u{1d7e3}'),
    ('\u{32}', "Sans", '\u{1d7e4}'),
    ('\u{33}', "Sans", '\u{1d7e5}'),
    ('\u{34}', "Sans", '\u{1d7e6}'),
    ('\u{35}', "Sans", '\u{1d7e7}'),
    ('\u{36}', "Sans", '\u{1d7e8}'),
    ('\u{37}', "Sans", '\u{1d7e9}'),
    ('\u{38}', "Sans", '\u{1d7ea}'),
    ('\u{39}', "Sans", '\u{1d7eb}'),
    ('\u{41}', "Sans", '\u{1d5a0}'),
    ('\u{42}', "Sans", '\u{1d5a1}'),
    ('\u{43}', "Sans", '\u{1d5a2}'),
    ('\u{44}', "Sans", '\u{1d5a3}'),
    ('\u{45}', "Sans", '\u{1d5a4}'),
    ('\u{46}', "Sans", '\u{1d5a5}'),
    ('\u{47}', "Sans", '\u{1d5a6}'),
    ('\u{48}', "Sans", '\u{1d5a7}'),
    ('\u{49}', "Sans", '\u{1d5a8}'),
    ('\u{4a}', "Sans", '\u{1d5a9}'),
    ('\u{4b}', "Sans", '\u{1d5aa}'),
    ('\u{4c}', "Sans", '\u{1d5ab}'),
    ('\u{4d}', "Sans", '\u{1d5ac}'),
    ('\u{4e}', "Sans", '\u{1d5ad}'),
    ('\u{4f}', "Sans", '\u{1d5ae}'),
    ('\u{50}', "Sans", '\u{1d5af}'),
    ('\u{51}', "Sans", '\u{1d5b0}'),
    ('\u{52}', "Sans", '\u{1d5b1}'),
    ('\u{53}', "Sans", '\u{1d5b2}'),
    ('\u{54}', "Sans", '\u{1d5b3}'),
    ('\u{55}', "Sans", '\u{1d5b4}'),
    ('\u{56}', "Sans", '\u{1d5b5}'),
    ('\u{57}', "Sans", '\u{1d5b6}'),
    ('\u{58}', "Sans", '\u{1d5b7}'),
    ('\u{59}', "Sans", '\u{1d5b8}'),
    ('\u{5a}', "Sans", '\u{1d5b9}'),
    ('\u{61}', "Sans", '\u{1d5ba}'),
    ('\u{62}', "Sans", '\u{1d5bb}'),
    ('\u{63}', "Sans", '\u{1d5bc}'),
    ('\u{64}', "Sans", '\u{1d5bd}'),
    ('\u{65}', "Sans", '\u{1d5be}'),
    ('\u{66}', "Sans", '\u{1d5bf}'),
    ('\u{67}', "Sans", '\u{1d5c0}'),
    ('\u{68}', "Sans", '\u{1d5c1}'),
    ('\u{69}', "Sans", '\u{1d5c2}'),
    ('\u{6a}', "Sans", '\u{1d5c3}'),
    ('\u{6b}', "Sans", '\u{1d5c4}'),
    ('\u{6c}', "Sans", '\u{1d5c5}'),
    ('\u{6d}', "Sans", '\u{1d5c6}'),
    ('\u{6e}', "Sans", '\u{1d5c7}'),
    ('\u{6f}', "Sans", '\u{1d5c8}'),
    ('\u{70}', "Sans", '\u{1d5c9}'),
    ('\u{71}', "Sans", '\u{1d5ca}'),
    ('\u{72}', "Sans", '\u{1d5cb}'),
    ('\u{73}', "Sans", '\u{1d5cc}'),
    ('\u{74}', "Sans", '\u{1d5cd}'),
    ('\u{75}', "Sans", '\u{1d5ce}'),
    ('\u{76}', "Sans", '\u{1d5cf}'),
    ('\u{77}', "Sans", '\u{1d5d0}'),
    ('\u{78}', "Sans", '\u{1d5d1}'),
    ('\u{79}', "Sans", '\u{1d5d2}'),
    ('\u{7a}', "Sans", '\u{1d5d3}'),
    ('\u{30}', "SansBold", '\u{1d7ec}'),
    ('\u{31}', "SansBold", '\u{1d7ed}'),
    ('\u{32}', "SansBold", '\u{1d7ee}'),
    ('\u{33}', "SansBold", '\u{1d7ef}'),
    ('\u{34}', "SansBold", '\u{1d7f0}'),
    ('\u{35}', "SansBold", '\u{1d7f1}'),
    ('\u{36}', "SansBold", '\u{1d7f2}'),
    ('\u{37}', "SansBold", '\u{1d7f3}'),
    ('\u{38}', "SansBold", '\u{1d7f4}'),
    ('\u{39}', "SansBold", '\u{1d7f5}'),
    ('\u{41}', "SansBold", '\u{1d5d4}'),
    ('\u{42}', "SansBold", '\u{1d5d5}'),
    ('\u{43}', "SansBold", '\u{1d5d6}'),
    ('\u{44}', "SansBold", '\u{1d5d7}'),
    ('\u{45}', "SansBold", '\u{1d5d8}'),
    ('\u{46}', "SansBold", '\u{1d5d9}'),
    ('\u{47}', "SansBold", '\u{1d5da}'),
    ('\u{48}', "SansBold", '\u{1d5db}'),
    ('\u{49}', "SansBold", '\u{1d5dc}'),
    ('\u{4a}', "SansBold", '\u{1d5dd}'),
    ('\u{4b}', "SansBold", '\u{1d5de}'),
    ('\u{4c}', "SansBold", '\u{1d5df}'),
    ('\u{4d}', "SansBold", '\u{1d5e0}'),
    ('\u{4e}', "SansBold", '\u{1d5e1}'),
    ('\u{4f}', "SansBold", '\u{1d5e2}'),
    ('\u{50}', "SansBold", '\u{1d5e3}'),
    ('\u{51}', "SansBold", '\u{1d5e4}'),
    ('\u{52}', "SansBold", '\u{1d5e5}'),
    ('\u{53}', "SansBold", '\u{1d5e6}'),
    ('\u{54}', "SansBold", '\u{1d5e7}'),
    ('\u{55}', "SansBold", '\u{1d5e8}'),
    ('\u{56}', "SansBold", '\u{1d5e9}'),
    ('\u{57}', "SansBold", '\u{1d5ea}'),
    ('\u{58}', "SansBold", '\u{1d5eb}'),
    ('\u{59}', "SansBold", '\u{1d5ec}'),
    ('\u{5a}', "SansBold", '\u{1d5ed}'),
    ('\u{61}', "SansBold", '\u{1d5ee}'),
    ('\u{62}', "SansBold", '\u{1d5ef}'),
    ('\u{63}', "SansBold", '\u{1d5f0}'),
    ('\u{64}', "SansBold", '\u{1d5f1}'),
    ('\u{65}', "SansBold", '\u{1d5f2}'),
    ('\u{66}', "SansBold", '\u{1d5f3}'),
    ('\u{67}', "SansBold", '\u{1d5f4}'),
    ('\u{68}', "SansBold", '\u{1d5f5}'),
    ('\u{69}', "SansBold", '\u{1d5f6}'),
    ('\u{6a}', "SansBold", '\u{1d5f7}'),
    ('\u{6b}', "SansBold", '\u{1d5f8}'),
    ('\u{6c}', "SansBold", '\u{1d5f9}'),
    ('\u{6d}', "SansBold", '\u{1d5fa}'),
    ('\u{6e}', "SansBold", '\u{1d5fb}'),
    ('\u{6f}', "SansBold", '\u{1d5fc}'),
    ('\u{70}', "SansBold", '\u{1d5fd}'),
    ('\u{71}', "SansBold", '\u{1d5fe}'),
    ('\u{72}', "SansBold", '\u{1d5ff}'),
    ('\u{73}', "SansBold", '\u{1d600}'),
    ('\u{74}', "SansBold", '\u{1d601}'),
    ('\u{75}', "SansBold", '\u{1d602}'),
    ('\u{76}', "SansBold", '\u{1d603}'),
    ('\u{77}', "SansBold", '\u{1d604}'),
    ('\u{78}', "SansBold", '\u{1d605}'),
    ('\u{79}', "SansBold", '\u{1d606}'),
    ('\u{7a}', "SansBold", '\u{1d607}'),
    ('\u{391}', "SansBold", '\u{1d756}'),
    ('\u{392}', "SansBold", '\u{1d757}'),
    ('\u{393}', "SansBold", '\u{1d758}'),
    ('\u{394}', "SansBold", '\u{1d759}'),
    ('\u{395}', "SansBold", '\u{1d75a}'),
    ('\u{396}', "SansBold", '\u{1d75b}'),
    ('\u{397}', "SansBold", '\u{1d75c}'),
    ('\u{398}', "SansBold", '\u{1d75d}'),
    ('\u{399}', "SansBold", '\u{1d75e}'),
    ('\u{39a}', "SansBold", '\u{1d75f}'),
    ('\u{39b}', "SansBold", '\u{1d760}'),
    ('\u{39c}', "SansBold", '\u{1d761}'),
    ('\u{39d}', "SansBold", '\u{1d762}'),
    ('\u{39e}', "SansBold", '\u{1d763}'),
    ('\u{39f}', "SansBold", '\u{1d764}'),
    ('\u{3a0}', "SansBold", '\u{1d765}'),
    ('\u{3a1}', "SansBold", '\u{1d766}'),
    ('\u{3a3}', "SansBold", '\u{1d768}'),
    ('\u{3a4}', "SansBold", '\u{1d769}'),
    ('\u{3a5}', "SansBold", '\u{1d76a}'),
    ('\u{3a6}', "SansBold", '\u{1d76b}'),
    ('\u{3a7}', "SansBold", '\u{1d76c}'),
    ('\u{3a8}', "SansBold", '\u{1d76d}'),
    ('\u{3a9}', "SansBold", '\u{1d76e}'),
    ('\u{3b1}', "SansBold", '\u{1d770}'),
    ('\u{3b2}', "SansBold", '\u{1d771}'),
    ('\u{3b3}', "SansBold", '\u{1d772}'),
    ('\u{3b4}', "SansBold", '\u{1d773}'),
    ('\u{3b5}', "SansBold", '\u{1d774}'),
    ('\u{3b6}', "SansBold", '\u{1d775}'),
    ('\u{3b7}', "SansBold", '\u{1d776}'),
    ('\u{3b8}', "SansBold", '\u{1d777}'),
    ('\u{3b9}', "SansBold", '\u{1d778}'),
    ('\u{3ba}', "SansBold", '\u{1d779}'),
    ('\u{3bb}', "SansBold", '\u{1d77a}'),
    ('\u{3bc}', "SansBold", '\u{1d77b}'),
    ('\u{3bd}', "SansBold", '\u{1d77c}'),
    ('\u{3be}', "SansBold", '\u{1d77d}'),
    ('\u{3bf}', "SansBold", '\u{1d77e}'),
    ('\u{3c0}', "SansBold", '\u{1d77f}'),
    ('\u{3c1}', "SansBold", '\u{1d780}'),
    ('\u{3c2}', "SansBold", '\u{1d781}'),
    ('\u{3c3}', "SansBold", '\u{1d782}'),
    ('\u{3c4}', "SansBold", '\u{1d783}'),
    ('\u{3c5}', "SansBold", '\u{1d784}'),
    ('\u{3c6}', "SansBold", '\u{1d785}'),
    ('\u{3c7}', "SansBold", '\u{1d786}'),
    ('\u{3c8}', "SansBold", '\u{1d787}'),
    ('\u{3c9}', "SansBold", '\u{1d788}'),
    ('\u{3d1}', "SansBold", '\u{1d78b}'),
    ('\u{3d5}', "SansBold", '\u{1d78d}'),
    ('\u{3d6}', "SansBold", '\u{1d78f}'),
    ('\u{3f0}', "SansBold", '\u{1d78c}'),
    ('\u{3f1}', "SansBold", '\u{1d78e}'),
    ('\u{3f4}', "SansBold", '\u{1d767}'),
    ('\u{3f5}', "SansBold", '\u{1d78a}'),
    ('\u{2202}', "SansBold", '\u{1d789}'),
    ('\u{2207}', "SansBold", '\u{1d76f}'),
    ('\u{41}', "SansBoldItalic", '\u{1d63c}'),
    ('\u{42}', "SansBoldItalic", '\u{1d63d}'),
    ('\u{43}', "SansBoldItalic", '\u{1d63e}'),
    ('\u{44}', "SansBoldItalic", '\u{1d63f}'),
    ('\u{45}', "SansBoldItalic", '\u{1d640}'),
    ('\u{46}', "SansBoldItalic", '\u{1d641}'),
    ('\u{47}', "SansBoldItalic", '\u{1d642}'),
    ('\u{48}', "SansBoldItalic", '\u{1d643}'),
    ('\u{49}', "SansBoldItalic", '\u{1d644}'),
    ('\u{4a}', "SansBoldItalic", '\u{1d645}'),
    ('\u{4b}', "SansBoldItalic", '\u{1d646}'),
    ('\u{4c}', "SansBoldItalic", '\u{1d647}'),
    ('\u{4d}', "SansBoldItalic", '\u{1d648}'),
    ('\u{4e}', "SansBoldItalic", '\u{1d649}'),
    ('\u{4f}', "SansBoldItalic", '\u{1d64a}'),
    ('\u{50}', "SansBoldItalic", '\u{1d64b}'),
    ('\u{51}', "SansBoldItalic", '\u{1d64c}'),
    ('\u{52}', "SansBoldItalic", '\u{1d64d}'),
    ('\u{53}', "SansBoldItalic", '\u{1d64e}'),
    ('\u{54}', "SansBoldItalic", '\u{1d64f}'),
    ('\u{55}', "SansBoldItalic", '\u{1d650}'),
    ('\u{56}', "SansBoldItalic", '\u{1d651}'),
    ('\u{57}', "SansBoldItalic", '\u{1d652}'),
    ('\u{58}', "SansBoldItalic", '\u{1d653}'),
    ('\u{59}', "SansBoldItalic", '\u{1d654}'),
    ('\u{5a}', "SansBoldItalic", '\u{1d655}'),
    ('\u{61}', "SansBoldItalic", '\u{1d656}'),
    ('\u{62}', "SansBoldItalic", '\u{1d657}'),
    ('\u{63}', "SansBoldItalic", '\u{1d658}'),
    ('\u{64}', "SansBoldItalic", '\u{1d659}'),
    ('\u{65}', "SansBoldItalic", '\u{1d65a}'),
    ('\u{66}', "SansBoldItalic", '\u{1d65b}'),
    ('\u{67}', "SansBoldItalic", '\u{1d65c}'),
    ('\u{68}', "SansBoldItalic", '\u{1d65d}'),
    ('\u{69}', "SansBoldItalic", '\u{1d65e}'),
    ('\u{6a}', "SansBoldItalic", '\u{1d65f}'),
    ('\u{6b}', "SansBoldItalic", '\u{1d660}'),
    ('\u{6c}', "SansBoldItalic", '\u{1d661}'),
    ('\u{6d}', "SansBoldItalic", '\u{1d662}'),
    ('\u{6e}', "SansBoldItalic", '\u{1d663}'),
    ('\u{6f}', "SansBoldItalic", '\u{1d664}'),
    ('\u{70}', "SansBoldItalic", '\u{1d665}'),
    ('\u{71}', "SansBoldItalic", '\u{1d666}'),
    ('\u{72}', "SansBoldItalic", '\u{1d667}'),
    ('\u{73}', "SansBoldItalic", '\u{1d668}'),
    ('\u{74}', "SansBoldItalic", '\u{1d669}'),
    ('\u{75}', "SansBoldItalic", '\u{1d66a}'),
    ('\u{76}', "SansBoldItalic", '\u{1d66b}'),
    ('\u{77}', "SansBoldItalic", '\u{1d66c}'),
    ('\u{78}', "SansBoldItalic", '\u{1d66d}'),
    ('\u{79}', "SansBoldItalic", '\u{1d66e}'),
    ('\u{7a}', "SansBoldItalic", '\u{1d66f}'),
    ('\u{391}', "SansBoldItalic", '\u{1d790}'),
    ('\u{392}', "SansBoldItalic", '\u{1d791}'),
    ('\u{393}', "SansBoldItalic", '\u{1d792}'),
    ('\u{394}', "SansBoldItalic", '\u{1d793}'),
    ('\u{395}', "SansBoldItalic", '\u{1d794}'),
    ('\u{396}', "SansBoldItalic", '\u{1d795}'),
    ('\u{397}', "SansBoldItalic", '\u{1d796}'),
    ('\u{398}', "SansBoldItalic", '\u{1d797}'),
    ('\u{399}', "SansBoldItalic", '\u{1d798}'),
    ('\u{39a}', "SansBoldItalic", '\u{1d799}'),
    ('\u{39b}', "SansBoldItalic", '\u{1d79a}'),
    ('\u{39c}', "SansBoldItalic", '\u{1d79b}'),
    ('\u{39d}', "SansBoldItalic", '\u{1d79c}'),
    ('\u{39e}', "SansBoldItalic", '\u{1d79d}'),
    ('\u{39f}', "SansBoldItalic", '\u{1d79e}'),
    ('\u{3a0}', "SansBoldItalic", '\u{1d79f}'),
    ('\u{3a1}', "SansBoldItalic", '\u{1d7a0}'),
    ('\u{3a3}', "SansBoldItalic", '\u{1d7a2}'),
    ('\u{3a4}', "SansBoldItalic", '\u{1d7a3}'),
    ('\u{3a5}', "SansBoldItalic", '\u{1d7a4}'),
    ('\u{3a6}', "SansBoldItalic", '\u{1d7a5}'),
    ('\u{3a7}', "SansBoldItalic", '\u{1d7a6}'),
    ('\u{3a8}', "SansBoldItalic", '\u{1d7a7}'),
    ('\u{3a9}', "SansBoldItalic", '\u{1d7a8}'),
    ('\u{3b1}', "SansBoldItalic", '\u{1d7aa}'),
    ('\u{3b2}', "SansBoldItalic", '\u{1d7ab}'),
    ('\u{3b3}', "SansBoldItalic", '\u{1d7ac}'),
    ('\u{3b4}', "SansBoldItalic", '\u{1d7ad}'),
    ('\u{3b5}', "SansBoldItalic", '\u{1d7ae}'),
    ('\u{3b6}', "SansBoldItalic", '\u{1d7af}'),
    ('\u{3b7}', "SansBoldItalic", '\u{1d7b0}'),
    ('\u{3b8}', "SansBoldItalic", '\u{1d7b1}'),
    ('\u{3b9}', "SansBoldItalic", '\u{1d7b2}'),
    ('\u{3ba}', "SansBoldItalic", '\u{1d7b3}'),
    ('\u{3bb}', "SansBoldItalic", '\u{1d7b4}'),
    ('\u{3bc}', "SansBoldItalic", '\u{1d7b5}'),
    ('\u{3bd}', "SansBoldItalic", '\u{1d7b6}'),
    ('\u{3be}', "SansBoldItalic", '\u{1d7b7}'),
    ('\u{3bf}', "SansBoldItalic", '\u{1d7b8}'),
    ('\u{3c0}', "SansBoldItalic", '\u{1d7b9}'),
    ('\u{3c1}', "SansBoldItalic", '\u{1d7ba}'),
    ('\u{3c2}', "SansBoldItalic", '\u{1d7bb}'),
    ('\u{3c3}', "SansBoldItalic", '\u{1d7bc}'),
    ('\u{3c4}', "SansBoldItalic", '\u{1d7bd}'),
    ('\u{3c5}', "SansBoldItalic", '\u{1d7be}'),
    ('\u{3c6}', "SansBoldItalic", '\u{1d7bf}'),
    ('\u{3c7}', "SansBoldItalic", '\u{1d7c0}'),
    ('\u{3c8}', "SansBoldItalic", '\u{1d7c1}'),
    ('\u{3c9}', "SansBoldItalic", '\u{1d7c2}'),
    ('\u{3d1}', "SansBoldItalic", '\u{1d7c5}'),
    ('\u{3d5}', "SansBoldItalic", '\u{1d7c7}'),
    ('\u{3d6}', "SansBoldItalic", '\u{1d7c9}'),
    ('\u{3f0}', "SansBoldItalic", '\u{1d7c6}'),
    ('\u{3f1}', "SansBoldItalic", '\u{1d7c8}'),
    ('\u{3f4}', "SansBoldItalic", '\u{1d7a1}'),
    ('\u{3f5}', "SansBoldItalic", '\u{1d7c4}'),
    ('\u{2202}', "SansBoldItalic", '\u{1d7c3}'),
    ('\u{2207}', "SansBoldItalic", '\u{1d7a9}'),
    ('\u{41}', "SansItalic", '\u{1d608}'),
    ('\u{42}', "SansItalic", '\u{1d609}'),
    ('\u{43}', "SansItalic", '\u{1d60a}'),
    ('\u{44}', "SansItalic", '\u{1d60b}'),
    ('\u{45}', "SansItalic", '\u{1d60c}'),
    ('\u{46}', "SansItalic", '\u{1d60d}'),
    ('\u{47}', "SansItalic", '\u{1d60e}'),
    ('\u{48}', "SansItalic", '\u{1d60f}'),
    ('\u{49}', "SansItalic", '\u{1d610}'),
    ('\u{4a}', "SansItalic", '\u{1d611}'),
    ('\u{4b}', "SansItalic", '\u{1d612}'),
    ('\u{4c}', "SansItalic", '\u{1d613}'),
    ('\u{4d}', "SansItalic", '\u{1d614}'),
    ('\u{4e}', "SansItalic", '\u{1d615}'),
    ('\u{4f}', "SansItalic", '\u{1d616}'),
    ('\u{50}', "SansItalic", '\u{1d617}'),
    ('\u{51}', "SansItalic", '\u{1d618}'),
    ('\u{52}', "SansItalic", '\u{1d619}'),
    ('\u{53}', "SansItalic", '\u{1d61a}'),
    ('\u{54}', "SansItalic", '\u{1d61b}'),
    ('\u{55}', "SansItalic", '\u{1d61c}'),
    ('\u{56}', "SansItalic", '\u{1d61d}'),
    ('\u{57}', "SansItalic", '\u{1d61e}'),
    ('\u{58}', "SansItalic", '\u{1d61f}'),
    ('\u{59}', "SansItalic", '\u{1d620}'),
    ('\u{5a}', "SansItalic", '\u{1d621}'),
    ('\u{61}', "SansItalic", '\u{1d622}'),
    ('\u{62}', "SansItalic", '\u{1d623}'),
    ('\u{63}', "SansItalic", '\u{1d624}'),
    ('\u{64}', "SansItalic", '\u{1d625}'),
    ('\u{65}', "SansItalic", '\u{1d626}'),
    ('\u{66}', "SansItalic", '\u{1d627}'),
    ('\u{67}', "SansItalic", '\u{1d628}'),
    ('\u{68}', "SansItalic", '\u{1d629}'),
    ('\u{69}', "SansItalic", '\u{1d62a}'),
    ('\u{6a}', "SansItalic", '\u{1d62b}'),
    ('\u{6b}', "SansItalic", '\u{1d62c}'),
    ('\u{6c}', "SansItalic", '\u{1d62d}'),
    ('\u{6d}', "SansItalic", '\u{1d62e}'),
    ('\u{6e}', "SansItalic", '\u{1d62f}'),
    ('\u{6f}', "SansItalic", '\u{1d630}'),
    ('\u{70}', "SansItalic", '\u{1d631}'),
    ('\u{71}', "SansItalic", '\u{1d632}'),
    ('\u{72}', "SansItalic", '\u{1d633}'),
    ('\u{73}', "SansItalic", '\u{1d634}'),
    ('\u{74}', "SansItalic", '\u{1d635}'),
    ('\u{75}', "SansItalic", '\u{1d636}'),
    ('\u{76}', "SansItalic", '\u{1d637}'),
    ('\u{77}', "SansItalic", '\u{1d638}'),
    ('\u{78}', "SansItalic", '\u{1d639}'),
    ('\u{79}', "SansItalic", '\u{1d63a}'),
    ('\u{7a}', "SansItalic", '\u{1d63b}'),
    ('\u{41}', "Script", '\u{1d49c}'),
    ('\u{42}', "Script", '\u{212c}'),
    ('\u{43}', "Script", '\u{1d49e}'),
    ('\u{44}', "Script", '\u{1d49f}'),
    ('\u{45}', "Script", '\u{2130}'),
    ('\u{46}', "Script", '\u{2131}'),
    ('\u{47}', "Script", '\u{1d4a2}'),
    ('\u{48}', "Script", '\u{210b}'),
    ('\u{49}', "Script", '\u{2110}'),
    ('\u{4a}', "Script", '\u{1d4a5}'),
    ('\u{4b}', "Script", '\u{1d4a6}'),
    ('\u{4c}', "Script", '\u{2112}'),
    ('\u{4d}', "Script", '\u{2133}'),
    ('\u{4e}', "Script", '\u{1d4a9}'),
    ('\u{4f}', "Script", '\u{1d4aa}'),
    ('\u{50}', "Script", '\u{1d4ab}'),
    ('\u{51}', "Script", '\u{1d4ac}'),
    ('\u{52}', "Script", '\u{211b}'),
    ('\u{53}', "Script", '\u{1d4ae}'),
    ('\u{54}', "Script", '\u{1d4af}'),
    ('\u{55}', "Script", '\u{1d4b0}'),
    ('\u{56}', "Script", '\u{1d4b1}'),
    ('\u{57}', "Script", '\u{1d4b2}'),
    ('\u{58}', "Script", '\u{1d4b3}'),
    ('\u{59}', "Script", '\u{1d4b4}'),
    ('\u{5a}', "Script", '\u{1d4b5}'),
    ('\u{61}', "Script", '\u{1d4b6}'),
    ('\u{62}', "Script", '\u{1d4b7}'),
    ('\u{63}', "Script", '\u{1d4b8}'),
    ('\u{64}', "Script", '\u{1d4b9}'),
    ('\u{65}', "Script", '\u{212f}'),
    ('\u{66}', "Script", '\u{1d4bb}'),
    ('\u{67}', "Script", '\u{210a}'),
    ('\u{68}', "Script", '\u{1d4bd}'),
    ('\u{69}', "Script", '\u{1d4be}'),
    ('\u{6a}', "Script", '\u{1d4bf}'),
    ('\u{6b}', "Script", '\u{1d4c0}'),
    ('\u{6c}', "Script", '\u{1d4c1}'),
    ('\u{6d}', "Script", '\u{1d4c2}'),
    ('\u{6e}', "Script", '\u{1d4c3}'),
    ('\u{6f}', "Script", '\u{2134}'),
    ('\u{70}', "Script", '\u{1d4c5}'),
    ('\u{71}', "Script", '\u{1d4c6}'),
    ('\u{72}', "Script", '\u{1d4c7}'),
    ('\u{73}', "Script", '\u{1d4c8}'),
    ('\u{74}', "Script", '\u{1d4c9}'),
    ('\u{75}', "Script", '\u{1d4ca}'),
    ('\u{76}', "Script", '\u{1d4cb}'),
    ('\u{77}', "Script", '\u{1d4cc}'),
    ('\u{78}', "Script", '\u{1d4cd}'),
    ('\u{79}', "Script", '\u{1d4ce}'),
    ('\u{7a}', "Script", '\u{1d4cf}'),
];

/// (character, the character it composes to with U+0338)
#[rustfmt::skip]
pub static NEGATED: &[(char, char)] = &[
    ('\u{3c}', '\u{226e}'),
    ('\u{3d}', '\u{2260}'),
    ('\u{3e}', '\u{226f}'),
    ('\u{2190}', '\u{219a}'),
    ('\u{2192}', '\u{219b}'),
    ('\u{2194}', '\u{21ae}'),
    ('\u{21d0}', '\u{21cd}'),
    ('\u{21d2}', '\u{21cf}'),
    ('\u{21d4}', '\u{21ce}'),
    ('\u{2203}', '\u{2204}'),
    ('\u{2208}', '\u{2209}'),
    ('\u{220b}', '\u{220c}'),
    ('\u{2223}', '\u{2224}'),
    ('\u{2225}', '\u{2226}'),
    ('\u{223c}', '\u{2241}'),
    ('\u{2243}', '\u{2244}'),
    ('\u{2245}', '\u{2247}'),
    ('\u{2248}', '\u{2249}'),
    ('\u{224d}', '\u{226d}'),
    ('\u{2261}', '\u{2262}'),
    ('\u{2264}', '\u{2270}'),
    ('\u{2265}', '\u{2271}'),
    ('\u{2272}', '\u{2274}'),
    ('\u{2273}', '\u{2275}'),
    ('\u{2276}', '\u{2278}'),
    ('\u{2277}', '\u{2279}'),
    ('\u{227a}', '\u{2280}'),
    ('\u{227b}', '\u{2281}'),
    ('\u{227c}', '\u{22e0}'),
    ('\u{227d}', '\u{22e1}'),
    ('\u{2282}', '\u{2284}'),
    ('\u{2283}', '\u{2285}'),
    ('\u{2286}', '\u{2288}'),
    ('\u{2287}', '\u{2289}'),
    ('\u{2291}', '\u{22e2}'),
    ('\u{2292}', '\u{22e3}'),
    ('\u{22a2}', '\u{22ac}'),
    ('\u{22a8}', '\u{22ad}'),
    ('\u{22a9}', '\u{22ae}'),
    ('\u{22ab}', '\u{22af}'),
    ('\u{22b2}', '\u{22ea}'),
    ('\u{22b3}', '\u{22eb}'),
    ('\u{22b4}', '\u{22ec}'),
    ('\u{22b5}', '\u{22ed}'),
];

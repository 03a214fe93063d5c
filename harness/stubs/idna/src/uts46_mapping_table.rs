// Copyright 2013-2020 The rust-url developers.
//
// Licensed under the Apache License, Version 2.0 <LICENSE-APACHE or
// http://www.apache.org/licenses/LICENSE-2.0> or the MIT license
// <LICENSE-MIT or http://opensource.org/licenses/MIT>, at your
// option. This file may not be copied, modified, or distributed
// except according to those terms.

// Generated by make_idna_table.py

static TABLE: &[(char, u16)] = &[
    ('\u{0}', 32768),
    ('\u{2d}', 32769),
    ('\u{2f}', 32770),
    ('\u{30}', 32771),
    ('\u{3a}', 32772),
    ('\u{41}', 5),
    ('\u{5b}', 32799),
    ('\u{61}', 32800),
    ('\u{7b}', 32801),
    ('\u{80}', 32802),
    ('\u{a0}', 32803),
    ('\u{a1}', 32804),
    ('\u{a8}', 37),
    ('\u{ab}', 32808),
    ('\u{ad}', 41),
    ('\u{b0}', 32812),
    ('\u{b2}', 45),
    ('\u{e0}', 32859),
    ('\u{f7}', 32860),
    ('\u{f8}', 32861),
    ('\u{100}', 94),
    ('\u{132}', 32912),
    ('\u{134}', 145),
    ('\u{137}', 32916),
    ('\u{139}', 149),
    ('\u{13f}', 32923),
    ('\u{141}', 156),
    ('\u{18c}', 32999),
    ('\u{18e}', 232),
    ('\u{199}', 33011),
    ('\u{19c}', 244),
    ('\u{1aa}', 33026),
    ('\u{1ac}', 259),
    ('\u{1b9}', 33040),
    ('\u{1bc}', 33041),
    ('\u{1bd}', 33042),
    ('\u{1c4}', 33043),
    ('\u{1c7}', 33044),
    ('\u{1ca}', 33045),
    ('\u{1cd}', 278),
    ('\u{1dc}', 33061),
    ('\u{1de}', 294),
    ('\u{1ef}', 33079),
    ('\u{1f1}', 33080),
    ('\u{1f4}', 313),
    ('\u{233}', 33144),
    ('\u{23a}', 377),
    ('\u{23f}', 33150),
    ('\u{241}', 383),
    ('\u{24f}', 33165),
    ('\u{2b0}', 398),
    ('\u{2b9}', 33175),
    ('\u{2c2}', 33176),
    ('\u{2c6}', 33177),
    ('\u{2d2}', 33178),
    ('\u{2d8}', 411),
    ('\u{2de}', 33185),
    ('\u{2e0}', 418),
    ('\u{2e5}', 33191),
    ('\u{2ec}', 424),
    ('\u{2ef}', 33195),
    ('\u{300}', 33196),
    ('\u{340}', 429),
    ('\u{346}', 33203),
    ('\u{34f}', 33204),
    ('\u{350}', 33205),
    ('\u{370}', 438),
    ('\u{378}', 33214),
    ('\u{37a}', 33215),
    ('\u{37b}', 33216),
    ('\u{37e}', 449),
    ('\u{380}', 33219),
    ('\u{384}', 452),
    ('\u{3ac}', 33260),
    ('\u{3c2}', 33261),
    ('\u{3c3}', 33262),
    ('\u{3cf}', 495),
    ('\u{3fb}', 33307),
    ('\u{3fd}', 540),
    ('\u{430}', 33359),
    ('\u{460}', 592),
    ('\u{483}', 33395),
    ('\u{488}', 33396),
    ('\u{48a}', 629),
    ('\u{4ce}', 33465),
    ('\u{4d0}', 698),
    ('\u{557}', 33601),
    ('\u{559}', 33602),
    ('\u{55a}', 33603),
    ('\u{560}', 33604),
    ('\u{587}', 837),
    ('\u{589}', 33607),
    ('\u{58b}', 33608),
    ('\u{58d}', 33609),
    ('\u{590}', 33610),
    ('\u{591}', 33611),
    ('\u{5be}', 844),
    ('\u{5c1}', 33615),
    ('\u{5c3}', 33616),
    ('\u{5c4}', 33617),
    ('\u{5c6}', 850),
    ('\u{5c8}', 33620),
    ('\u{5d0}', 33621),
    ('\u{5eb}', 33622),
    ('\u{5ef}', 33623),
    ('\u{5f5}', 33624),
    ('\u{606}', 33625),
    ('\u{610}', 33626),
    ('\u{61b}', 33627),
    ('\u{61c}', 33628),
    ('\u{61e}', 33629),
    ('\u{620}', 33630),
    ('\u{640}', 33631),
    ('\u{641}', 33632),
    ('\u{66a}', 33633),
    ('\u{66e}', 33634),
    ('\u{675}', 867),
    ('\u{679}', 33639),
    ('\u{6d4}', 33640),
    ('\u{6d5}', 33641),
    ('\u{6dd}', 874),
    ('\u{6df}', 33644),
    ('\u{6e9}', 33645),
    ('\u{6ea}', 33646),
    ('\u{700}', 33647),
    ('\u{70e}', 33648),
    ('\u{710}', 33649),
    ('\u{74b}', 33650),
    ('\u{74d}', 33651),
    ('\u{7b2}', 33652),
    ('\u{7c0}', 33653),
    ('\u{7f6}', 33654),
    ('\u{7fb}', 33655),
    ('\u{7fd}', 33656),
    ('\u{7fe}', 33657),
    ('\u{800}', 33658),
    ('\u{82e}', 33659),
    ('\u{830}', 33660),
    ('\u{83f}', 33661),
    ('\u{840}', 33662),
    ('\u{85c}', 33663),
    ('\u{85e}', 896),
    ('\u{860}', 33666),
    ('\u{86b}', 33667),
    ('\u{8a0}', 33668),
    ('\u{8b5}', 33669),
    ('\u{8b6}', 33670),
    ('\u{8c8}', 33671),
    ('\u{8d3}', 33672),
    ('\u{8e2}', 33673),
    ('\u{8e3}', 33674),
    ('\u{958}', 907),
    ('\u{960}', 33683),
    ('\u{964}', 33684),
    ('\u{966}', 33685),
    ('\u{970}', 33686),
    ('\u{971}', 33687),
    ('\u{984}', 33688),
    ('\u{985}', 33689),
    ('\u{98d}', 33690),
    ('\u{98f}', 33691),
    ('\u{991}', 33692),
    ('\u{993}', 33693),
    ('\u{9a9}', 33694),
    ('\u{9aa}', 33695),
    ('\u{9b1}', 928),
    ('\u{9b3}', 33698),
    ('\u{9b6}', 33699),
    ('\u{9ba}', 33700),
    ('\u{9bc}', 33701),
    ('\u{9c5}', 33702),
    ('\u{9c7}', 33703),
    ('\u{9c9}', 33704),
    ('\u{9cb}', 33705),
    ('\u{9cf}', 33706),
    ('\u{9d7}', 33707),
    ('\u{9d8}', 33708),
    ('\u{9dc}', 941),
    ('\u{9e0}', 33713),
    ('\u{9e4}', 33714),
    ('\u{9e6}', 33715),
    ('\u{9f2}', 33716),
    ('\u{9fc}', 949),
    ('\u{9ff}', 33720),
    ('\u{a01}', 33721),
    ('\u{a04}', 33722),
    ('\u{a05}', 33723),
    ('\u{a0b}', 33724),
    ('\u{a0f}', 33725),
    ('\u{a11}', 33726),
    ('\u{a13}', 33727),
    ('\u{a29}', 33728),
    ('\u{a2a}', 33729),
    ('\u{a31}', 962),
    ('\u{a38}', 33737),
    ('\u{a3a}', 33738),
    ('\u{a3c}', 971),
    ('\u{a3e}', 33741),
    ('\u{a43}', 33742),
    ('\u{a47}', 33743),
    ('\u{a49}', 33744),
    ('\u{a4b}', 33745),
    ('\u{a4e}', 33746),
    ('\u{a51}', 33747),
    ('\u{a52}', 33748),
    ('\u{a59}', 981),
    ('\u{a5f}', 33755),
    ('\u{a66}', 33756),
    ('\u{a76}', 33757),
    ('\u{a77}', 33758),
    ('\u{a81}', 33759),
    ('\u{a84}', 33760),
    ('\u{a85}', 33761),
    ('\u{a8e}', 33762),
    ('\u{a8f}', 33763),
    ('\u{a92}', 33764),
    ('\u{a93}', 33765),
    ('\u{aa9}', 33766),
    ('\u{aaa}', 33767),
    ('\u{ab1}', 33768),
    ('\u{ab2}', 33769),
    ('\u{ab4}', 33770),
    ('\u{ab5}', 33771),
    ('\u{aba}', 33772),
    ('\u{abc}', 33773),
    ('\u{ac6}', 33774),
    ('\u{ac7}', 33775),
    ('\u{aca}', 33776),
    ('\u{acb}', 33777),
    ('\u{ace}', 33778),
    ('\u{ad0}', 33779),
    ('\u{ad1}', 33780),
    ('\u{ae0}', 33781),
    ('\u{ae4}', 33782),
    ('\u{ae6}', 33783),
    ('\u{af0}', 33784),
    ('\u{af2}', 33785),
    ('\u{af9}', 33786),
    ('\u{b00}', 33787),
    ('\u{b01}', 33788),
    ('\u{b04}', 33789),
    ('\u{b05}', 33790),
    ('\u{b0d}', 33791),
    ('\u{b0f}', 33792),
    ('\u{b11}', 33793),
    ('\u{b13}', 33794),
    ('\u{b29}', 33795),
    ('\u{b2a}', 33796),
    ('\u{b31}', 33797),
    ('\u{b32}', 33798),
    ('\u{b34}', 33799),
    ('\u{b35}', 33800),
    ('\u{b3a}', 33801),
    ('\u{b3c}', 33802),
    ('\u{b45}', 33803),
    ('\u{b47}', 33804),
    ('\u{b49}', 33805),
    ('\u{b4b}', 33806),
    ('\u{b4e}', 33807),
    ('\u{b55}', 33808),
    ('\u{b58}', 33809),
    ('\u{b5c}', 1042),
    ('\u{b5f}', 33813),
    ('\u{b64}', 33814),
    ('\u{b66}', 33815),
    ('\u{b70}', 1048),
    ('\u{b72}', 33818),
    ('\u{b78}', 33819),
    ('\u{b82}', 33820),
    ('\u{b84}', 33821),
    ('\u{b85}', 33822),
    ('\u{b8b}', 33823),
    ('\u{b8e}', 33824),
    ('\u{b91}', 33825),
    ('\u{b92}', 33826),
    ('\u{b96}', 33827),
    ('\u{b99}', 33828),
    ('\u{b9b}', 1061),
    ('\u{b9e}', 33832),
    ('\u{ba0}', 33833),
    ('\u{ba3}', 33834),
    ('\u{ba5}', 33835),
    ('\u{ba8}', 33836),
    ('\u{bab}', 33837),
    ('\u{bae}', 33838),
    ('\u{bba}', 33839),
    ('\u{bbe}', 33840),
    ('\u{bc3}', 33841),
    ('\u{bc6}', 33842),
    ('\u{bc9}', 33843),
    ('\u{bca}', 33844),
    ('\u{bce}', 33845),
    ('\u{bd0}', 33846),
    ('\u{bd1}', 33847),
    ('\u{bd7}', 33848),
    ('\u{bd8}', 33849),
    ('\u{be6}', 33850),
    ('\u{bf0}', 33851),
    ('\u{bfb}', 33852),
    ('\u{c00}', 33853),
    ('\u{c0d}', 33854),
    ('\u{c0e}', 33855),
    ('\u{c11}', 33856),
    ('\u{c12}', 33857),
    ('\u{c29}', 33858),
    ('\u{c2a}', 33859),
    ('\u{c3a}', 33860),
    ('\u{c3d}', 33861),
    ('\u{c45}', 33862),
    ('\u{c46}', 33863),
    ('\u{c49}', 33864),
    ('\u{c4a}', 33865),
    ('\u{c4e}', 33866),
    ('\u{c55}', 33867),
    ('\u{c57}', 33868),
    ('\u{c58}', 33869),
    ('\u{c5b}', 33870),
    ('\u{c60}', 33871),
    ('\u{c64}', 33872),
    ('\u{c66}', 33873),
    ('\u{c70}', 33874),
    ('\u{c77}', 33875),
    ('\u{c80}', 33876),
    ('\u{c84}', 33877),
    ('\u{c85}', 33878),
    ('\u{c8d}', 33879),
    ('\u{c8e}', 33880),
    ('\u{c91}', 33881),
    ('\u{c92}', 33882),
    ('\u{ca9}', 33883),
    ('\u{caa}', 33884),
    ('\u{cb4}', 33885),
    ('\u{cb5}', 33886),
    ('\u{cba}', 33887),
    ('\u{cbc}', 33888),
    ('\u{cc5}', 33889),
    ('\u{cc6}', 33890),
    ('\u{cc9}', 33891),
    ('\u{cca}', 33892),
    ('\u{cce}', 33893),
    ('\u{cd5}', 33894),
    ('\u{cd7}', 33895),
    ('\u{cde}', 1128),
    ('\u{ce0}', 33898),
    ('\u{ce4}', 33899),
    ('\u{ce6}', 33900),
    ('\u{cf0}', 33901),
    ('\u{cf1}', 33902),
    ('\u{cf3}', 33903),
    ('\u{d00}', 33904),
    ('\u{d0d}', 33905),
    ('\u{d0e}', 33906),
    ('\u{d11}', 33907),
    ('\u{d12}', 33908),
    ('\u{d45}', 33909),
    ('\u{d46}', 33910),
    ('\u{d49}', 33911),
    ('\u{d4a}', 33912),
    ('\u{d4f}', 33913),
    ('\u{d50}', 33914),
    ('\u{d54}', 33915),
    ('\u{d58}', 33916),
    ('\u{d5f}', 33917),
    ('\u{d64}', 33918),
    ('\u{d66}', 33919),
    ('\u{d70}', 33920),
    ('\u{d7a}', 33921),
    ('\u{d80}', 33922),
    ('\u{d81}', 33923),
    ('\u{d84}', 33924),
    ('\u{d85}', 33925),
    ('\u{d97}', 33926),
    ('\u{d9a}', 33927),
    ('\u{db2}', 33928),
    ('\u{db3}', 33929),
    ('\u{dbc}', 1162),
    ('\u{dbe}', 33932),
    ('\u{dc0}', 33933),
    ('\u{dc7}', 33934),
    ('\u{dca}', 33935),
    ('\u{dcb}', 33936),
    ('\u{dcf}', 33937),
    ('\u{dd5}', 1170),
    ('\u{dd8}', 33941),
    ('\u{de0}', 33942),
    ('\u{de6}', 33943),
    ('\u{df0}', 33944),
    ('\u{df2}', 33945),
    ('\u{df4}', 33946),
    ('\u{df5}', 33947),
    ('\u{e01}', 33948),
    ('\u{e33}', 33949),
    ('\u{e34}', 33950),
    ('\u{e3b}', 33951),
    ('\u{e3f}', 33952),
    ('\u{e40}', 33953),
    ('\u{e4f}', 33954),
    ('\u{e50}', 33955),
    ('\u{e5a}', 33956),
    ('\u{e5c}', 33957),
    ('\u{e81}', 33958),
    ('\u{e83}', 1191),
    ('\u{e86}', 33962),
    ('\u{e8b}', 33963),
    ('\u{e8c}', 33964),
    ('\u{ea4}', 1197),
    ('\u{ea7}', 33968),
    ('\u{eb3}', 33969),
    ('\u{eb4}', 33970),
    ('\u{ebe}', 33971),
    ('\u{ec0}', 33972),
    ('\u{ec5}', 1205),
    ('\u{ec8}', 33976),
    ('\u{ece}', 33977),
    ('\u{ed0}', 33978),
    ('\u{eda}', 33979),
    ('\u{edc}', 1212),
    ('\u{ede}', 33982),
    ('\u{ee0}', 33983),
    ('\u{f00}', 33984),
    ('\u{f01}', 33985),
    ('\u{f0b}', 1218),
    ('\u{f0d}', 33988),
    ('\u{f18}', 33989),
    ('\u{f1a}', 33990),
    ('\u{f20}', 33991),
    ('\u{f2a}', 33992),
    ('\u{f35}', 1225),
    ('\u{f3a}', 33998),
    ('\u{f3e}', 33999),
    ('\u{f43}', 34000),
    ('\u{f44}', 34001),
    ('\u{f48}', 34002),
    ('\u{f49}', 34003),
    ('\u{f4d}', 34004),
    ('\u{f4e}', 34005),
    ('\u{f52}', 34006),
    ('\u{f53}', 34007),
    ('\u{f57}', 34008),
    ('\u{f58}', 34009),
    ('\u{f5c}', 34010),
    ('\u{f5d}', 34011),
    ('\u{f69}', 34012),
    ('\u{f6a}', 34013),
    ('\u{f6d}', 34014),
    ('\u{f71}', 34015),
    ('\u{f73}', 1248),
    ('\u{f7a}', 34023),
    ('\u{f81}', 34024),
    ('\u{f82}', 34025),
    ('\u{f85}', 34026),
    ('\u{f86}', 34027),
    ('\u{f93}', 34028),
    ('\u{f94}', 34029),
    ('\u{f98}', 34030),
    ('\u{f99}', 34031),
    ('\u{f9d}', 34032),
    ('\u{f9e}', 34033),
    ('\u{fa2}', 34034),
    ('\u{fa3}', 34035),
    ('\u{fa7}', 34036),
    ('\u{fa8}', 34037),
    ('\u{fac}', 34038),
    ('\u{fad}', 34039),
    ('\u{fb9}', 34040),
    ('\u{fba}', 34041),
    ('\u{fbd}', 34042),
    ('\u{fbe}', 34043),
    ('\u{fc6}', 34044),
    ('\u{fc7}', 34045),
    ('\u{fcd}', 34046),
    ('\u{fce}', 34047),
    ('\u{fdb}', 34048),
    ('\u{1000}', 34049),
    ('\u{104a}', 34050),
    ('\u{1050}', 34051),
    ('\u{109e}', 34052),
    ('\u{10a0}', 34053),
    ('\u{10c7}', 34054),
    ('\u{10c8}', 34055),
    ('\u{10cd}', 34056),
    ('\u{10ce}', 34057),
    ('\u{10d0}', 34058),
    ('\u{10fb}', 1291),
    ('\u{10fd}', 34061),
    ('\u{1100}', 34062),
    ('\u{115f}', 34063),
    ('\u{1161}', 34064),
    ('\u{1200}', 34065),
    ('\u{1249}', 34066),
    ('\u{124a}', 34067),
    ('\u{124e}', 34068),
    ('\u{1250}', 34069),
    ('\u{1257}', 1302),
    ('\u{125a}', 34073),
    ('\u{125e}', 34074),
    ('\u{1260}', 34075),
    ('\u{1289}', 34076),
    ('\u{128a}', 34077),
    ('\u{128e}', 34078),
    ('\u{1290}', 34079),
    ('\u{12b1}', 34080),
    ('\u{12b2}', 34081),
    ('\u{12b6}', 34082),
    ('\u{12b8}', 34083),
    ('\u{12bf}', 1316),
    ('\u{12c2}', 34087),
    ('\u{12c6}', 34088),
    ('\u{12c8}', 34089),
    ('\u{12d7}', 34090),
    ('\u{12d8}', 34091),
    ('\u{1311}', 34092),
    ('\u{1312}', 34093),
    ('\u{1316}', 34094),
    ('\u{1318}', 34095),
    ('\u{135b}', 34096),
    ('\u{135d}', 34097),
    ('\u{1360}', 34098),
    ('\u{137d}', 34099),
    ('\u{1380}', 34100),
    ('\u{1390}', 34101),
    ('\u{139a}', 34102),
    ('\u{13a0}', 34103),
    ('\u{13f6}', 34104),
    ('\u{13f8}', 1337),
    ('\u{13fe}', 34111),
    ('\u{1400}', 34112),
    ('\u{1401}', 34113),
    ('\u{166d}', 34114),
    ('\u{166f}', 34115),
    ('\u{1680}', 34116),
    ('\u{1681}', 34117),
    ('\u{169b}', 34118),
    ('\u{169d}', 34119),
    ('\u{16a0}', 34120),
    ('\u{16eb}', 34121),
    ('\u{16f1}', 34122),
    ('\u{16f9}', 34123),
    ('\u{1700}', 34124),
    ('\u{170d}', 34125),
    ('\u{170e}', 34126),
    ('\u{1715}', 34127),
    ('\u{1720}', 34128),
    ('\u{1735}', 34129),
    ('\u{1737}', 34130),
    ('\u{1740}', 34131),
    ('\u{1754}', 34132),
    ('\u{1760}', 34133),
    ('\u{176d}', 34134),
    ('\u{176e}', 34135),
    ('\u{1771}', 34136),
    ('\u{1772}', 34137),
    ('\u{1774}', 34138),
    ('\u{1780}', 34139),
    ('\u{17b4}', 34140),
    ('\u{17b6}', 34141),
    ('\u{17d4}', 34142),
    ('\u{17d7}', 34143),
    ('\u{17d8}', 34144),
    ('\u{17dc}', 34145),
    ('\u{17de}', 34146),
    ('\u{17e0}', 34147),
    ('\u{17ea}', 34148),
    ('\u{17f0}', 34149),
    ('\u{17fa}', 34150),
    ('\u{1800}', 34151),
    ('\u{1806}', 34152),
    ('\u{1807}', 34153),
    ('\u{180b}', 34154),
    ('\u{180e}', 34155),
    ('\u{1810}', 34156),
    ('\u{181a}', 34157),
    ('\u{1820}', 34158),
    ('\u{1879}', 34159),
    ('\u{1880}', 34160),
    ('\u{18ab}', 34161),
    ('\u{18b0}', 34162),
    ('\u{18f6}', 34163),
    ('\u{1900}', 34164),
    ('\u{191f}', 34165),
    ('\u{1920}', 34166),
    ('\u{192c}', 34167),
    ('\u{1930}', 34168),
    ('\u{193c}', 34169),
    ('\u{1940}', 34170),
    ('\u{1941}', 34171),
    ('\u{1944}', 34172),
    ('\u{1946}', 34173),
    ('\u{196e}', 34174),
    ('\u{1970}', 34175),
    ('\u{1975}', 34176),
    ('\u{1980}', 34177),
    ('\u{19ac}', 34178),
    ('\u{19b0}', 34179),
    ('\u{19ca}', 34180),
    ('\u{19d0}', 34181),
    ('\u{19da}', 34182),
    ('\u{19db}', 34183),
    ('\u{19de}', 34184),
    ('\u{1a00}', 34185),
    ('\u{1a1c}', 34186),
    ('\u{1a1e}', 34187),
    ('\u{1a20}', 34188),
    ('\u{1a5f}', 34189),
    ('\u{1a60}', 34190),
    ('\u{1a7d}', 34191),
    ('\u{1a7f}', 34192),
    ('\u{1a8a}', 34193),
    ('\u{1a90}', 34194),
    ('\u{1a9a}', 34195),
    ('\u{1aa0}', 34196),
    ('\u{1aa7}', 34197),
    ('\u{1aa8}', 34198),
    ('\u{1aae}', 34199),
    ('\u{1ab0}', 34200),
    ('\u{1abe}', 34201),
    ('\u{1abf}', 34202),
    ('\u{1ac1}', 34203),
    ('\u{1b00}', 34204),
    ('\u{1b4c}', 34205),
    ('\u{1b50}', 34206),
    ('\u{1b5a}', 34207),
    ('\u{1b6b}', 34208),
    ('\u{1b74}', 34209),
    ('\u{1b7d}', 34210),
    ('\u{1b80}', 34211),
    ('\u{1bf4}', 34212),
    ('\u{1bfc}', 34213),
    ('\u{1c00}', 34214),
    ('\u{1c38}', 34215),
    ('\u{1c3b}', 34216),
    ('\u{1c40}', 34217),
    ('\u{1c4a}', 34218),
    ('\u{1c4d}', 34219),
    ('\u{1c7e}', 34220),
    ('\u{1c80}', 1453),
    ('\u{1c84}', 34225),
    ('\u{1c86}', 1458),
    ('\u{1c89}', 34229),
    ('\u{1c90}', 1462),
    ('\u{1cbb}', 34273),
    ('\u{1cbd}', 1506),
    ('\u{1cc0}', 34277),
    ('\u{1cc8}', 34278),
    ('\u{1cd0}', 34279),
    ('\u{1cd3}', 34280),
    ('\u{1cd4}', 34281),
    ('\u{1cfb}', 34282),
    ('\u{1d00}', 34283),
    ('\u{1d2c}', 1516),
    ('\u{1d6b}', 34347),
    ('\u{1d78}', 34348),
    ('\u{1d79}', 34349),
    ('\u{1d9b}', 1582),
    ('\u{1dc0}', 34387),
    ('\u{1dfa}', 34388),
    ('\u{1dfb}', 34389),
    ('\u{1e00}', 1622),
    ('\u{1e95}', 34539),
    ('\u{1e9a}', 1772),
    ('\u{1e9c}', 34542),
    ('\u{1e9e}', 1775),
    ('\u{1eff}', 34640),
    ('\u{1f08}', 1873),
    ('\u{1f10}', 34649),
    ('\u{1f16}', 34650),
    ('\u{1f18}', 1883),
    ('\u{1f1e}', 34657),
    ('\u{1f20}', 34658),
    ('\u{1f28}', 1891),
    ('\u{1f30}', 34667),
    ('\u{1f38}', 1900),
    ('\u{1f40}', 34676),
    ('\u{1f46}', 34677),
    ('\u{1f48}', 1910),
    ('\u{1f4e}', 34684),
    ('\u{1f50}', 34685),
    ('\u{1f58}', 1918),
    ('\u{1f60}', 34694),
    ('\u{1f68}', 1927),
    ('\u{1f7e}', 34717),
    ('\u{1f80}', 1950),
    ('\u{1fb0}', 34766),
    ('\u{1fb2}', 1999),
    ('\u{1fd0}', 34797),
    ('\u{1fd3}', 34798),
    ('\u{1fd4}', 34799),
    ('\u{1fd6}', 34800),
    ('\u{1fd8}', 2033),
    ('\u{1fe0}', 34809),
    ('\u{1fe3}', 34810),
    ('\u{1fe4}', 34811),
    ('\u{1fe8}', 2044),
    ('\u{1ff0}', 34820),
    ('\u{1ff2}', 2053),
    ('\u{2000}', 34835),
    ('\u{200b}', 34836),
    ('\u{200c}', 34837),
    ('\u{200e}', 34838),
    ('\u{2010}', 2071),
    ('\u{2012}', 34841),
    ('\u{2017}', 34842),
    ('\u{2018}', 34843),
    ('\u{2024}', 34844),
    ('\u{2027}', 34845),
    ('\u{2028}', 34846),
    ('\u{202f}', 34847),
    ('\u{2030}', 34848),
    ('\u{2033}', 2081),
    ('\u{2038}', 34854),
    ('\u{203c}', 2087),
    ('\u{203f}', 34858),
    ('\u{2047}', 2091),
    ('\u{204a}', 34862),
    ('\u{2057}', 34863),
    ('\u{2058}', 34864),
    ('\u{205f}', 2097),
    ('\u{2061}', 34867),
    ('\u{2064}', 34868),
    ('\u{2065}', 34869),
    ('\u{2070}', 2102),
    ('\u{2072}', 34872),
    ('\u{2074}', 2105),
    ('\u{209d}', 34914),
    ('\u{20a0}', 34915),
    ('\u{20a8}', 34916),
    ('\u{20a9}', 34917),
    ('\u{20c0}', 34918),
    ('\u{20d0}', 34919),
    ('\u{20f1}', 34920),
    ('\u{2100}', 2153),
    ('\u{210b}', 34932),
    ('\u{210f}', 34933),
    ('\u{2110}', 34934),
    ('\u{2112}', 34935),
    ('\u{2114}', 2168),
    ('\u{2117}', 34939),
    ('\u{2119}', 2172),
    ('\u{211b}', 34942),
    ('\u{211e}', 34943),
    ('\u{2120}', 2176),
    ('\u{212f}', 34959),
    ('\u{2131}', 2192),
    ('\u{213d}', 34972),
    ('\u{213f}', 2205),
    ('\u{2141}', 34975),
    ('\u{2145}', 34976),
    ('\u{2147}', 2209),
    ('\u{214a}', 34980),
    ('\u{214e}', 2213),
    ('\u{2180}', 35031),
    ('\u{2183}', 2264),
    ('\u{2185}', 35034),
    ('\u{2189}', 35035),
    ('\u{218a}', 35036),
    ('\u{218c}', 35037),
    ('\u{2190}', 35038),
    ('\u{222c}', 2271),
    ('\u{2231}', 35044),
    ('\u{2260}', 35045),
    ('\u{2261}', 35046),
    ('\u{226e}', 35047),
    ('\u{2270}', 35048),
    ('\u{2329}', 2281),
    ('\u{232b}', 35051),
    ('\u{2427}', 35052),
    ('\u{2440}', 35053),
    ('\u{244b}', 35054),
    ('\u{2460}', 2287),
    ('\u{2488}', 35095),
    ('\u{249c}', 2328),
    ('\u{24eb}', 35175),
    ('\u{2a0c}', 35176),
    ('\u{2a0d}', 35177),
    ('\u{2a74}', 2410),
    ('\u{2a77}', 35181),
    ('\u{2adc}', 35182),
    ('\u{2add}', 35183),
    ('\u{2b74}', 35184),
    ('\u{2b76}', 35185),
    ('\u{2b96}', 35186),
    ('\u{2b97}', 35187),
    ('\u{2c00}', 2420),
    ('\u{2c30}', 35236),
    ('\u{2c5f}', 2469),
    ('\u{2c65}', 35243),
    ('\u{2c67}', 2476),
    ('\u{2c73}', 35256),
    ('\u{2c75}', 35257),
    ('\u{2c76}', 35258),
    ('\u{2c7c}', 2491),
    ('\u{2ce3}', 35362),
    ('\u{2ce5}', 35363),
    ('\u{2ceb}', 2596),
    ('\u{2cee}', 35367),
    ('\u{2cf2}', 2600),
    ('\u{2cf4}', 35370),
    ('\u{2cf9}', 35371),
    ('\u{2d00}', 35372),
    ('\u{2d26}', 2605),
    ('\u{2d28}', 35375),
    ('\u{2d2d}', 35376),
    ('\u{2d2e}', 35377),
    ('\u{2d30}', 35378),
    ('\u{2d68}', 35379),
    ('\u{2d6f}', 2612),
    ('\u{2d71}', 35382),
    ('\u{2d7f}', 35383),
    ('\u{2d97}', 35384),
    ('\u{2da0}', 35385),
    ('\u{2da7}', 35386),
    ('\u{2da8}', 35387),
    ('\u{2daf}', 35388),
    ('\u{2db0}', 35389),
    ('\u{2db7}', 35390),
    ('\u{2db8}', 35391),
    ('\u{2dbf}', 35392),
    ('\u{2dc0}', 35393),
    ('\u{2dc7}', 35394),
    ('\u{2dc8}', 35395),
    ('\u{2dcf}', 35396),
    ('\u{2dd0}', 35397),
    ('\u{2dd7}', 35398),
    ('\u{2dd8}', 35399),
    ('\u{2ddf}', 35400),
    ('\u{2de0}', 35401),
    ('\u{2e00}', 35402),
    ('\u{2e2f}', 35403),
    ('\u{2e30}', 35404),
    ('\u{2e53}', 35405),
    ('\u{2e80}', 35406),
    ('\u{2e9a}', 35407),
    ('\u{2e9b}', 35408),
    ('\u{2e9f}', 35409),
    ('\u{2ea0}', 35410),
    ('\u{2ef3}', 35411),
    ('\u{2ef4}', 35412),
    ('\u{2f00}', 2645),
    ('\u{2fd6}', 35627),
    ('\u{3000}', 2860),
    ('\u{3003}', 35631),
    ('\u{3005}', 35632),
    ('\u{3008}', 35633),
    ('\u{302a}', 35634),
    ('\u{302e}', 35635),
    ('\u{3036}', 2868),
    ('\u{303d}', 35643),
    ('\u{3040}', 35644),
    ('\u{3041}', 35645),
    ('\u{3097}', 35646),
    ('\u{3099}', 35647),
    ('\u{309b}', 2880),
    ('\u{309d}', 35650),
    ('\u{309f}', 2883),
    ('\u{30a1}', 35653),
    ('\u{30ff}', 35654),
    ('\u{3100}', 35655),
    ('\u{3105}', 35656),
    ('\u{3130}', 2889),
    ('\u{3190}', 35753),
    ('\u{3192}', 2986),
    ('\u{31a0}', 35768),
    ('\u{31c0}', 35769),
    ('\u{31e4}', 35770),
    ('\u{31f0}', 35771),
    ('\u{3200}', 3004),
    ('\u{3248}', 35844),
    ('\u{3250}', 3077),
    ('\u{3400}', 36277),
    ('\u{4dc0}', 36278),
    ('\u{4e00}', 36279),
    ('\u{9ffd}', 36280),
    ('\u{a000}', 36281),
    ('\u{a48d}', 36282),
    ('\u{a490}', 36283),
    ('\u{a4c7}', 36284),
    ('\u{a4d0}', 36285),
    ('\u{a4fe}', 36286),
    ('\u{a500}', 36287),
    ('\u{a60d}', 36288),
    ('\u{a610}', 36289),
    ('\u{a62c}', 36290),
    ('\u{a640}', 3523),
    ('\u{a66d}', 36336),
    ('\u{a670}', 36337),
    ('\u{a674}', 36338),
    ('\u{a67e}', 3571),
    ('\u{a69e}', 36371),
    ('\u{a6e6}', 36372),
    ('\u{a6f0}', 36373),
    ('\u{a6f2}', 36374),
    ('\u{a6f8}', 36375),
    ('\u{a700}', 36376),
    ('\u{a717}', 36377),
    ('\u{a720}', 36378),
    ('\u{a722}', 3611),
    ('\u{a72f}', 36392),
    ('\u{a732}', 3625),
    ('\u{a771}', 36456),
    ('\u{a779}', 3689),
    ('\u{a787}', 36471),
    ('\u{a789}', 36472),
    ('\u{a78b}', 3705),
    ('\u{a78e}', 36476),
    ('\u{a790}', 3709),
    ('\u{a793}', 36480),
    ('\u{a796}', 3713),
    ('\u{a7c0}', 36523),
    ('\u{a7c2}', 3756),
    ('\u{a7cb}', 36533),
    ('\u{a7f5}', 36534),
    ('\u{a7f6}', 36535),
    ('\u{a7f8}', 3768),
    ('\u{a7fa}', 36538),
    ('\u{a828}', 36539),
    ('\u{a82c}', 36540),
    ('\u{a82d}', 36541),
    ('\u{a830}', 36542),
    ('\u{a83a}', 36543),
    ('\u{a840}', 36544),
    ('\u{a874}', 36545),
    ('\u{a878}', 36546),
    ('\u{a880}', 36547),
    ('\u{a8c6}', 36548),
    ('\u{a8ce}', 36549),
    ('\u{a8d0}', 36550),
    ('\u{a8da}', 36551),
    ('\u{a8e0}', 36552),
    ('\u{a8f8}', 36553),
    ('\u{a8fb}', 3786),
    ('\u{a8fd}', 36556),
    ('\u{a92e}', 36557),
    ('\u{a930}', 36558),
    ('\u{a954}', 36559),
    ('\u{a95f}', 36560),
    ('\u{a97d}', 36561),
    ('\u{a980}', 36562),
    ('\u{a9c1}', 36563),
    ('\u{a9ce}', 36564),
    ('\u{a9cf}', 36565),
    ('\u{a9da}', 36566),
    ('\u{a9de}', 36567),
    ('\u{a9e0}', 36568),
    ('\u{a9ff}', 36569),
    ('\u{aa00}', 36570),
    ('\u{aa37}', 36571),
    ('\u{aa40}', 36572),
    ('\u{aa4e}', 36573),
    ('\u{aa50}', 36574),
    ('\u{aa5a}', 36575),
    ('\u{aa5c}', 36576),
    ('\u{aa60}', 36577),
    ('\u{aa77}', 36578),
    ('\u{aa7a}', 36579),
    ('\u{aac3}', 36580),
    ('\u{aadb}', 36581),
    ('\u{aade}', 36582),
    ('\u{aae0}', 36583),
    ('\u{aaf0}', 36584),
    ('\u{aaf2}', 36585),
    ('\u{aaf7}', 36586),
    ('\u{ab01}', 36587),
    ('\u{ab07}', 36588),
    ('\u{ab09}', 36589),
    ('\u{ab0f}', 36590),
    ('\u{ab11}', 36591),
    ('\u{ab17}', 36592),
    ('\u{ab20}', 36593),
    ('\u{ab27}', 36594),
    ('\u{ab28}', 36595),
    ('\u{ab2f}', 36596),
    ('\u{ab30}', 36597),
    ('\u{ab5b}', 3830),
    ('\u{ab60}', 36603),
    ('\u{ab69}', 36604),
    ('\u{ab6a}', 36605),
    ('\u{ab6c}', 36606),
    ('\u{ab70}', 3839),
    ('\u{abc0}', 36687),
    ('\u{abeb}', 36688),
    ('\u{abec}', 36689),
    ('\u{abee}', 36690),
    ('\u{abf0}', 36691),
    ('\u{abfa}', 36692),
    ('\u{ac00}', 36693),
    ('\u{d7a4}', 36694),
    ('\u{d7b0}', 36695),
    ('\u{d7c7}', 36696),
    ('\u{d7cb}', 36697),
    ('\u{d7fc}', 36698),
    ('\u{f900}', 3931),
    ('\u{f907}', 36706),
    ('\u{f909}', 3939),
    ('\u{fa0e}', 36968),
    ('\u{fa10}', 4201),
    ('\u{fa13}', 36972),
    ('\u{fa15}', 4205),
    ('\u{fa23}', 36987),
    ('\u{fa25}', 4220),
    ('\u{fa27}', 36990),
    ('\u{fa2a}', 4223),
    ('\u{fa5d}', 37042),
    ('\u{fa5f}', 4275),
    ('\u{fa6e}', 37058),
    ('\u{fa70}', 4291),
    ('\u{fada}', 37165),
    ('\u{fb00}', 4398),
    ('\u{fb05}', 37171),
    ('\u{fb07}', 37172),
    ('\u{fb13}', 4405),
    ('\u{fb18}', 37178),
    ('\u{fb1d}', 4411),
    ('\u{fb50}', 37230),
    ('\u{fb52}', 37231),
    ('\u{fb56}', 37232),
    ('\u{fb5a}', 37233),
    ('\u{fb5e}', 37234),
    ('\u{fb62}', 37235),
    ('\u{fb66}', 37236),
    ('\u{fb6a}', 37237),
    ('\u{fb6e}', 37238),
    ('\u{fb72}', 37239),
    ('\u{fb76}', 37240),
    ('\u{fb7a}', 37241),
    ('\u{fb7e}', 37242),
    ('\u{fb82}', 37243),
    ('\u{fb84}', 37244),
    ('\u{fb86}', 37245),
    ('\u{fb88}', 37246),
    ('\u{fb8a}', 37247),
    ('\u{fb8c}', 37248),
    ('\u{fb8e}', 37249),
    ('\u{fb92}', 37250),
    ('\u{fb96}', 37251),
    ('\u{fb9a}', 37252),
    ('\u{fb9e}', 37253),
    ('\u{fba0}', 37254),
    ('\u{fba4}', 37255),
    ('\u{fba6}', 37256),
    ('\u{fbaa}', 37257),
    ('\u{fbae}', 37258),
    ('\u{fbb0}', 37259),
    ('\u{fbb2}', 37260),
    ('\u{fbc2}', 37261),
    ('\u{fbd3}', 37262),
    ('\u{fbd7}', 37263),
    ('\u{fbd9}', 37264),
    ('\u{fbdb}', 37265),
    ('\u{fbdd}', 37266),
    ('\u{fbde}', 37267),
    ('\u{fbe0}', 37268),
    ('\u{fbe2}', 37269),
    ('\u{fbe4}', 37270),
    ('\u{fbe8}', 37271),
    ('\u{fbea}', 37272),
    ('\u{fbec}', 37273),
    ('\u{fbee}', 37274),
    ('\u{fbf0}', 37275),
    ('\u{fbf2}', 37276),
    ('\u{fbf4}', 37277),
    ('\u{fbf6}', 37278),
    ('\u{fbf9}', 37279),
    ('\u{fbfc}', 37280),
    ('\u{fc00}', 4513),
    ('\u{fd3c}', 37597),
    ('\u{fd3e}', 37598),
    ('\u{fd40}', 37599),
    ('\u{fd50}', 37600),
    ('\u{fd51}', 37601),
    ('\u{fd53}', 4834),
    ('\u{fd58}', 37607),
    ('\u{fd5a}', 4840),
    ('\u{fd5f}', 37613),
    ('\u{fd61}', 37614),
    ('\u{fd62}', 37615),
    ('\u{fd64}', 37616),
    ('\u{fd66}', 37617),
    ('\u{fd67}', 37618),
    ('\u{fd69}', 37619),
    ('\u{fd6a}', 37620),
    ('\u{fd6c}', 37621),
    ('\u{fd6e}', 37622),
    ('\u{fd6f}', 37623),
    ('\u{fd71}', 37624),
    ('\u{fd73}', 4857),
    ('\u{fd76}', 37628),
    ('\u{fd78}', 4861),
    ('\u{fd7c}', 37633),
    ('\u{fd7e}', 4866),
    ('\u{fd83}', 37639),
    ('\u{fd85}', 37640),
    ('\u{fd87}', 37641),
    ('\u{fd89}', 4874),
    ('\u{fd90}', 37649),
    ('\u{fd92}', 4882),
    ('\u{fd97}', 37655),
    ('\u{fd99}', 4888),
    ('\u{fd9c}', 37659),
    ('\u{fd9e}', 4892),
    ('\u{fdc8}', 37702),
    ('\u{fdf0}', 4935),
    ('\u{fdfe}', 37717),
    ('\u{fe00}', 37718),
    ('\u{fe10}', 4951),
    ('\u{fe19}', 37728),
    ('\u{fe20}', 37729),
    ('\u{fe30}', 4962),
    ('\u{fe33}', 37733),
    ('\u{fe35}', 4966),
    ('\u{fe45}', 37750),
    ('\u{fe47}', 4983),
    ('\u{fe49}', 37753),
    ('\u{fe4d}', 37754),
    ('\u{fe50}', 4987),
    ('\u{fe52}', 37757),
    ('\u{fe54}', 4990),
    ('\u{fe6c}', 37782),
    ('\u{fe70}', 5015),
    ('\u{fe81}', 37800),
    ('\u{fe83}', 37801),
    ('\u{fe85}', 37802),
    ('\u{fe87}', 37803),
    ('\u{fe89}', 37804),
    ('\u{fe8d}', 37805),
    ('\u{fe8f}', 37806),
    ('\u{fe93}', 37807),
    ('\u{fe95}', 37808),
    ('\u{fe99}', 37809),
    ('\u{fe9d}', 37810),
    ('\u{fea1}', 37811),
    ('\u{fea5}', 37812),
    ('\u{fea9}', 37813),
    ('\u{feab}', 37814),
    ('\u{fead}', 37815),
    ('\u{feaf}', 37816),
    ('\u{feb1}', 37817),
    ('\u{feb5}', 37818),
    ('\u{feb9}', 37819),
    ('\u{febd}', 37820),
    ('\u{fec1}', 37821),
    ('\u{fec5}', 37822),
    ('\u{fec9}', 37823),
    ('\u{fecd}', 37824),
    ('\u{fed1}', 37825),
    ('\u{fed5}', 37826),
    ('\u{fed9}', 37827),
    ('\u{fedd}', 37828),
    ('\u{fee1}', 37829),
    ('\u{fee5}', 37830),
    ('\u{fee9}', 37831),
    ('\u{feed}', 37832),
    ('\u{feef}', 37833),
    ('\u{fef1}', 37834),
    ('\u{fef5}', 37835),
    ('\u{fef7}', 37836),
    ('\u{fef9}', 37837),
    ('\u{fefb}', 37838),
    ('\u{fefd}', 37839),
    ('\u{feff}', 5072),
    ('\u{ffbf}', 38032),
    ('\u{ffc2}', 5265),
    ('\u{ffc8}', 38039),
    ('\u{ffca}', 5272),
    ('\u{ffd0}', 38046),
    ('\u{ffd2}', 5279),
    ('\u{ffd8}', 38053),
    ('\u{ffda}', 5286),
    ('\u{ffdd}', 38057),
    ('\u{ffe0}', 5290),
    ('\u{ffef}', 38073),
    ('\u{10000}', 38074),
    ('\u{1000c}', 38075),
    ('\u{1000d}', 38076),
    ('\u{10027}', 38077),
    ('\u{10028}', 38078),
    ('\u{1003b}', 38079),
    ('\u{1003c}', 38080),
    ('\u{1003e}', 38081),
    ('\u{1003f}', 38082),
    ('\u{1004e}', 38083),
    ('\u{10050}', 38084),
    ('\u{1005e}', 38085),
    ('\u{10080}', 38086),
    ('\u{100fb}', 38087),
    ('\u{10100}', 38088),
    ('\u{10103}', 38089),
    ('\u{10107}', 38090),
    ('\u{10134}', 38091),
    ('\u{10137}', 38092),
    ('\u{1018f}', 38093),
    ('\u{10190}', 38094),
    ('\u{1019d}', 38095),
    ('\u{101a0}', 38096),
    ('\u{101a1}', 38097),
    ('\u{101d0}', 38098),
    ('\u{101fd}', 38099),
    ('\u{101fe}', 38100),
    ('\u{10280}', 38101),
    ('\u{1029d}', 38102),
    ('\u{102a0}', 38103),
    ('\u{102d1}', 38104),
    ('\u{102e0}', 38105),
    ('\u{102e1}', 38106),
    ('\u{102fc}', 38107),
    ('\u{10300}', 38108),
    ('\u{10320}', 38109),
    ('\u{10324}', 38110),
    ('\u{1032d}', 38111),
    ('\u{10341}', 38112),
    ('\u{10342}', 38113),
    ('\u{1034a}', 38114),
    ('\u{1034b}', 38115),
    ('\u{10350}', 38116),
    ('\u{1037b}', 38117),
    ('\u{10380}', 38118),
    ('\u{1039e}', 5351),
    ('\u{103a0}', 38121),
    ('\u{103c4}', 38122),
    ('\u{103c8}', 38123),
    ('\u{103d0}', 38124),
    ('\u{103d6}', 38125),
    ('\u{10400}', 5358),
    ('\u{10428}', 38166),
    ('\u{1049e}', 38167),
    ('\u{104a0}', 38168),
    ('\u{104aa}', 38169),
    ('\u{104b0}', 5402),
    ('\u{104d4}', 38206),
    ('\u{104d8}', 38207),
    ('\u{104fc}', 38208),
    ('\u{10500}', 38209),
    ('\u{10528}', 38210),
    ('\u{10530}', 38211),
    ('\u{10564}', 38212),
    ('\u{1056f}', 38213),
    ('\u{10570}', 38214),
    ('\u{10600}', 38215),
    ('\u{10737}', 38216),
    ('\u{10740}', 38217),
    ('\u{10756}', 38218),
    ('\u{10760}', 38219),
    ('\u{10768}', 38220),
    ('\u{10800}', 38221),
    ('\u{10806}', 38222),
    ('\u{10808}', 5455),
    ('\u{1080a}', 38225),
    ('\u{10836}', 38226),
    ('\u{10837}', 38227),
    ('\u{10839}', 38228),
    ('\u{1083c}', 38229),
    ('\u{1083d}', 38230),
    ('\u{1083f}', 38231),
    ('\u{10856}', 38232),
    ('\u{10857}', 38233),
    ('\u{10860}', 38234),
    ('\u{10877}', 38235),
    ('\u{10880}', 38236),
    ('\u{1089f}', 38237),
    ('\u{108a7}', 38238),
    ('\u{108b0}', 38239),
    ('\u{108e0}', 38240),
    ('\u{108f3}', 38241),
    ('\u{108f4}', 38242),
    ('\u{108f6}', 38243),
    ('\u{108fb}', 38244),
    ('\u{10900}', 38245),
    ('\u{10916}', 38246),
    ('\u{1091c}', 38247),
    ('\u{1091f}', 38248),
    ('\u{10920}', 38249),
    ('\u{1093a}', 38250),
    ('\u{1093f}', 38251),
    ('\u{10940}', 38252),
    ('\u{10980}', 38253),
    ('\u{109b8}', 38254),
    ('\u{109bc}', 38255),
    ('\u{109be}', 38256),
    ('\u{109c0}', 38257),
    ('\u{109d0}', 38258),
    ('\u{109d2}', 38259),
    ('\u{10a00}', 38260),
    ('\u{10a04}', 38261),
    ('\u{10a05}', 38262),
    ('\u{10a07}', 38263),
    ('\u{10a0c}', 38264),
    ('\u{10a14}', 38265),
    ('\u{10a15}', 38266),
    ('\u{10a18}', 38267),
    ('\u{10a19}', 38268),
    ('\u{10a36}', 38269),
    ('\u{10a38}', 38270),
    ('\u{10a3b}', 38271),
    ('\u{10a3f}', 38272),
    ('\u{10a40}', 38273),
    ('\u{10a49}', 38274),
    ('\u{10a50}', 38275),
    ('\u{10a59}', 38276),
    ('\u{10a60}', 38277),
    ('\u{10a7d}', 38278),
    ('\u{10a80}', 38279),
    ('\u{10a9d}', 38280),
    ('\u{10aa0}', 38281),
    ('\u{10ac0}', 38282),
    ('\u{10ac8}', 38283),
    ('\u{10ac9}', 38284),
    ('\u{10ae7}', 38285),
    ('\u{10aeb}', 38286),
    ('\u{10af7}', 38287),
    ('\u{10b00}', 38288),
    ('\u{10b36}', 38289),
    ('\u{10b39}', 38290),
    ('\u{10b40}', 38291),
    ('\u{10b56}', 38292),
    ('\u{10b58}', 38293),
    ('\u{10b60}', 38294),
    ('\u{10b73}', 38295),
    ('\u{10b78}', 38296),
    ('\u{10b80}', 38297),
    ('\u{10b92}', 38298),
    ('\u{10b99}', 38299),
    ('\u{10b9d}', 38300),
    ('\u{10ba9}', 38301),
    ('\u{10bb0}', 38302),
    ('\u{10c00}', 38303),
    ('\u{10c49}', 38304),
    ('\u{10c80}', 5537),
    ('\u{10cb3}', 38356),
    ('\u{10cc0}', 38357),
    ('\u{10cf3}', 38358),
    ('\u{10cfa}', 38359),
    ('\u{10d00}', 38360),
    ('\u{10d28}', 38361),
    ('\u{10d30}', 38362),
    ('\u{10d3a}', 38363),
    ('\u{10e60}', 38364),
    ('\u{10e7f}', 38365),
    ('\u{10e80}', 38366),
    ('\u{10eaa}', 38367),
    ('\u{10eab}', 38368),
    ('\u{10ead}', 38369),
    ('\u{10eae}', 38370),
    ('\u{10eb0}', 38371),
    ('\u{10eb2}', 38372),
    ('\u{10f00}', 38373),
    ('\u{10f1d}', 38374),
    ('\u{10f27}', 38375),
    ('\u{10f28}', 38376),
    ('\u{10f30}', 38377),
    ('\u{10f51}', 38378),
    ('\u{10f5a}', 38379),
    ('\u{10fb0}', 38380),
    ('\u{10fc5}', 38381),
    ('\u{10fcc}', 38382),
    ('\u{10fe0}', 38383),
    ('\u{10ff7}', 38384),
    ('\u{11000}', 38385),
    ('\u{11047}', 38386),
    ('\u{1104e}', 38387),
    ('\u{11052}', 38388),
    ('\u{11066}', 38389),
    ('\u{11070}', 38390),
    ('\u{1107f}', 38391),
    ('\u{110bb}', 38392),
    ('\u{110bd}', 38393),
    ('\u{110be}', 38394),
    ('\u{110c2}', 38395),
    ('\u{110d0}', 38396),
    ('\u{110e9}', 38397),
    ('\u{110f0}', 38398),
    ('\u{110fa}', 38399),
    ('\u{11100}', 38400),
    ('\u{11135}', 38401),
    ('\u{11136}', 38402),
    ('\u{11140}', 38403),
    ('\u{11144}', 38404),
    ('\u{11148}', 38405),
    ('\u{11150}', 38406),
    ('\u{11174}', 38407),
    ('\u{11176}', 38408),
    ('\u{11177}', 38409),
    ('\u{11180}', 38410),
    ('\u{111c5}', 38411),
    ('\u{111c9}', 38412),
    ('\u{111cd}', 38413),
    ('\u{111ce}', 38414),
    ('\u{111db}', 5647),
    ('\u{111dd}', 38417),
    ('\u{111e0}', 38418),
    ('\u{111e1}', 38419),
    ('\u{111f5}', 38420),
    ('\u{11200}', 38421),
    ('\u{11212}', 38422),
    ('\u{11213}', 38423),
    ('\u{11238}', 38424),
    ('\u{1123e}', 38425),
    ('\u{1123f}', 38426),
    ('\u{11280}', 38427),
    ('\u{11287}', 5660),
    ('\u{1128a}', 38431),
    ('\u{1128e}', 38432),
    ('\u{1128f}', 38433),
    ('\u{1129e}', 38434),
    ('\u{1129f}', 38435),
    ('\u{112a9}', 38436),
    ('\u{112aa}', 38437),
    ('\u{112b0}', 38438),
    ('\u{112eb}', 38439),
    ('\u{112f0}', 38440),
    ('\u{112fa}', 38441),
    ('\u{11300}', 38442),
    ('\u{11304}', 38443),
    ('\u{11305}', 38444),
    ('\u{1130d}', 38445),
    ('\u{1130f}', 38446),
    ('\u{11311}', 38447),
    ('\u{11313}', 38448),
    ('\u{11329}', 38449),
    ('\u{1132a}', 38450),
    ('\u{11331}', 38451),
    ('\u{11332}', 38452),
    ('\u{11334}', 38453),
    ('\u{11335}', 38454),
    ('\u{1133a}', 38455),
    ('\u{1133b}', 38456),
    ('\u{11345}', 38457),
    ('\u{11347}', 38458),
    ('\u{11349}', 38459),
    ('\u{1134b}', 38460),
    ('\u{1134e}', 38461),
    ('\u{11350}', 38462),
    ('\u{11351}', 38463),
    ('\u{11357}', 38464),
    ('\u{11358}', 38465),
    ('\u{1135d}', 38466),
    ('\u{11364}', 38467),
    ('\u{11366}', 38468),
    ('\u{1136d}', 38469),
    ('\u{11370}', 38470),
    ('\u{11375}', 38471),
    ('\u{11400}', 38472),
    ('\u{1144b}', 38473),
    ('\u{11450}', 38474),
    ('\u{1145a}', 38475),
    ('\u{1145c}', 5708),
    ('\u{1145e}', 38478),
    ('\u{11462}', 38479),
    ('\u{11480}', 38480),
    ('\u{114c6}', 5713),
    ('\u{114c8}', 38483),
    ('\u{114d0}', 38484),
    ('\u{114da}', 38485),
    ('\u{11580}', 38486),
    ('\u{115b6}', 38487),
    ('\u{115b8}', 38488),
    ('\u{115c1}', 38489),
    ('\u{115d8}', 38490),
    ('\u{115de}', 38491),
    ('\u{11600}', 38492),
    ('\u{11641}', 38493),
    ('\u{11644}', 38494),
    ('\u{11645}', 38495),
    ('\u{11650}', 38496),
    ('\u{1165a}', 38497),
    ('\u{11660}', 38498),
    ('\u{1166d}', 38499),
    ('\u{11680}', 38500),
    ('\u{116b9}', 38501),
    ('\u{116c0}', 38502),
    ('\u{116ca}', 38503),
    ('\u{11700}', 38504),
    ('\u{1171b}', 38505),
    ('\u{1171d}', 38506),
    ('\u{1172c}', 38507),
    ('\u{11730}', 38508),
    ('\u{1173a}', 38509),
    ('\u{11740}', 38510),
    ('\u{11800}', 38511),
    ('\u{1183b}', 38512),
    ('\u{1183c}', 38513),
    ('\u{118a0}', 5746),
    ('\u{118c0}', 38546),
    ('\u{118ea}', 38547),
    ('\u{118f3}', 38548),
    ('\u{118ff}', 38549),
    ('\u{11907}', 38550),
    ('\u{11909}', 38551),
    ('\u{1190a}', 38552),
    ('\u{1190c}', 38553),
    ('\u{11914}', 38554),
    ('\u{11915}', 38555),
    ('\u{11917}', 38556),
    ('\u{11918}', 38557),
    ('\u{11936}', 38558),
    ('\u{11937}', 38559),
    ('\u{11939}', 38560),
    ('\u{1193b}', 38561),
    ('\u{11944}', 38562),
    ('\u{11947}', 38563),
    ('\u{11950}', 38564),
    ('\u{1195a}', 38565),
    ('\u{119a0}', 38566),
    ('\u{119a8}', 38567),
    ('\u{119aa}', 38568),
    ('\u{119d8}', 38569),
    ('\u{119da}', 38570),
    ('\u{119e2}', 38571),
    ('\u{119e3}', 38572),
    ('\u{119e5}', 38573),
    ('\u{11a00}', 38574),
    ('\u{11a3f}', 38575),
    ('\u{11a47}', 38576),
    ('\u{11a48}', 38577),
    ('\u{11a50}', 38578),
    ('\u{11a9a}', 38579),
    ('\u{11a9d}', 38580),
    ('\u{11a9e}', 38581),
    ('\u{11aa3}', 38582),
    ('\u{11ac0}', 38583),
    ('\u{11af9}', 38584),
    ('\u{11c00}', 38585),
    ('\u{11c09}', 38586),
    ('\u{11c0a}', 38587),
    ('\u{11c37}', 38588),
    ('\u{11c38}', 38589),
    ('\u{11c41}', 38590),
    ('\u{11c46}', 38591),
    ('\u{11c50}', 38592),
    ('\u{11c5a}', 38593),
    ('\u{11c6d}', 38594),
    ('\u{11c70}', 38595),
    ('\u{11c72}', 38596),
    ('\u{11c90}', 38597),
    ('\u{11c92}', 38598),
    ('\u{11ca8}', 38599),
    ('\u{11ca9}', 38600),
    ('\u{11cb7}', 38601),
    ('\u{11d00}', 38602),
    ('\u{11d07}', 38603),
    ('\u{11d08}', 38604),
    ('\u{11d0a}', 38605),
    ('\u{11d0b}', 38606),
    ('\u{11d37}', 38607),
    ('\u{11d3a}', 5840),
    ('\u{11d3c}', 38610),
    ('\u{11d3e}', 38611),
    ('\u{11d3f}', 38612),
    ('\u{11d48}', 38613),
    ('\u{11d50}', 38614),
    ('\u{11d5a}', 38615),
    ('\u{11d60}', 38616),
    ('\u{11d66}', 38617),
    ('\u{11d67}', 38618),
    ('\u{11d69}', 38619),
    ('\u{11d6a}', 38620),
    ('\u{11d8f}', 38621),
    ('\u{11d90}', 38622),
    ('\u{11d92}', 38623),
    ('\u{11d93}', 38624),
    ('\u{11d99}', 38625),
    ('\u{11da0}', 38626),
    ('\u{11daa}', 38627),
    ('\u{11ee0}', 38628),
    ('\u{11ef7}', 38629),
    ('\u{11ef9}', 38630),
    ('\u{11fb0}', 38631),
    ('\u{11fb1}', 38632),
    ('\u{11fc0}', 38633),
    ('\u{11ff2}', 38634),
    ('\u{11fff}', 38635),
    ('\u{12000}', 38636),
    ('\u{1239a}', 38637),
    ('\u{12400}', 38638),
    ('\u{1246f}', 38639),
    ('\u{12470}', 38640),
    ('\u{12475}', 38641),
    ('\u{12480}', 38642),
    ('\u{12544}', 38643),
    ('\u{13000}', 38644),
    ('\u{1342f}', 38645),
    ('\u{14400}', 38646),
    ('\u{14647}', 38647),
    ('\u{16800}', 38648),
    ('\u{16a39}', 38649),
    ('\u{16a40}', 38650),
    ('\u{16a5f}', 38651),
    ('\u{16a60}', 38652),
    ('\u{16a6a}', 38653),
    ('\u{16a6e}', 38654),
    ('\u{16a70}', 38655),
    ('\u{16ad0}', 38656),
    ('\u{16aee}', 38657),
    ('\u{16af0}', 38658),
    ('\u{16af5}', 38659),
    ('\u{16af6}', 38660),
    ('\u{16b00}', 38661),
    ('\u{16b37}', 38662),
    ('\u{16b40}', 38663),
    ('\u{16b44}', 38664),
    ('\u{16b46}', 38665),
    ('\u{16b50}', 38666),
    ('\u{16b5a}', 38667),
    ('\u{16b5b}', 38668),
    ('\u{16b62}', 38669),
    ('\u{16b63}', 38670),
    ('\u{16b78}', 38671),
    ('\u{16b7d}', 38672),
    ('\u{16b90}', 38673),
    ('\u{16e40}', 5906),
    ('\u{16e60}', 38706),
    ('\u{16e80}', 38707),
    ('\u{16e9b}', 38708),
    ('\u{16f00}', 38709),
    ('\u{16f4b}', 38710),
    ('\u{16f4f}', 38711),
    ('\u{16f88}', 38712),
    ('\u{16f8f}', 38713),
    ('\u{16fa0}', 38714),
    ('\u{16fe0}', 38715),
    ('\u{16fe2}', 38716),
    ('\u{16fe3}', 38717),
    ('\u{16fe5}', 38718),
    ('\u{16ff0}', 38719),
    ('\u{16ff2}', 38720),
    ('\u{17000}', 38721),
    ('\u{187f8}', 38722),
    ('\u{18800}', 38723),
    ('\u{18cd6}', 38724),
    ('\u{18d00}', 38725),
    ('\u{18d09}', 38726),
    ('\u{1b000}', 38727),
    ('\u{1b11f}', 38728),
    ('\u{1b150}', 38729),
    ('\u{1b153}', 38730),
    ('\u{1b164}', 38731),
    ('\u{1b168}', 38732),
    ('\u{1b170}', 38733),
    ('\u{1b2fc}', 38734),
    ('\u{1bc00}', 38735),
    ('\u{1bc6b}', 38736),
    ('\u{1bc70}', 38737),
    ('\u{1bc7d}', 38738),
    ('\u{1bc80}', 38739),
    ('\u{1bc89}', 38740),
    ('\u{1bc90}', 38741),
    ('\u{1bc9a}', 38742),
    ('\u{1bc9c}', 38743),
    ('\u{1bc9d}', 38744),
    ('\u{1bc9f}', 38745),
    ('\u{1bca0}', 38746),
    ('\u{1bca4}', 38747),
    ('\u{1d000}', 38748),
    ('\u{1d0f6}', 38749),
    ('\u{1d100}', 38750),
    ('\u{1d127}', 38751),
    ('\u{1d129}', 38752),
    ('\u{1d15e}', 5985),
    ('\u{1d165}', 38760),
    ('\u{1d173}', 38761),
    ('\u{1d17b}', 38762),
    ('\u{1d1bb}', 5995),
    ('\u{1d1c1}', 38769),
    ('\u{1d1e9}', 38770),
    ('\u{1d200}', 38771),
    ('\u{1d246}', 38772),
    ('\u{1d2e0}', 38773),
    ('\u{1d2f4}', 38774),
    ('\u{1d300}', 38775),
    ('\u{1d357}', 38776),
    ('\u{1d360}', 38777),
    ('\u{1d379}', 38778),
    ('\u{1d400}', 6011),
    ('\u{1d4a0}', 38939),
    ('\u{1d4a2}', 38940),
    ('\u{1d4a3}', 38941),
    ('\u{1d4a5}', 6174),
    ('\u{1d4a7}', 38944),
    ('\u{1d4a9}', 6177),
    ('\u{1d50b}', 39043),
    ('\u{1d50d}', 6276),
    ('\u{1d547}', 39102),
    ('\u{1d54a}', 6335),
    ('\u{1d6a6}', 39451),
    ('\u{1d6a8}', 6684),
    ('\u{1d6d3}', 39495),
    ('\u{1d6d5}', 6728),
    ('\u{1d70d}', 39552),
    ('\u{1d70f}', 6785),
    ('\u{1d747}', 39609),
    ('\u{1d749}', 6842),
    ('\u{1d781}', 39666),
    ('\u{1d783}', 6899),
    ('\u{1d7bb}', 39723),
    ('\u{1d7bd}', 6956),
    ('\u{1d7ca}', 39737),
    ('\u{1d7cc}', 39738),
    ('\u{1d7ce}', 6971),
    ('\u{1d800}', 39789),
    ('\u{1da00}', 39790),
    ('\u{1da37}', 39791),
    ('\u{1da3b}', 39792),
    ('\u{1da6d}', 39793),
    ('\u{1da75}', 39794),
    ('\u{1da76}', 39795),
    ('\u{1da84}', 39796),
    ('\u{1da85}', 39797),
    ('\u{1da8c}', 39798),
    ('\u{1da9b}', 39799),
    ('\u{1daa0}', 39800),
    ('\u{1daa1}', 39801),
    ('\u{1dab0}', 39802),
    ('\u{1e000}', 39803),
    ('\u{1e007}', 39804),
    ('\u{1e008}', 39805),
    ('\u{1e019}', 39806),
    ('\u{1e01b}', 39807),
    ('\u{1e022}', 39808),
    ('\u{1e023}', 39809),
    ('\u{1e025}', 39810),
    ('\u{1e026}', 39811),
    ('\u{1e02b}', 39812),
    ('\u{1e100}', 39813),
    ('\u{1e12d}', 39814),
    ('\u{1e130}', 39815),
    ('\u{1e13e}', 39816),
    ('\u{1e140}', 39817),
    ('\u{1e14a}', 39818),
    ('\u{1e14e}', 7051),
    ('\u{1e150}', 39821),
    ('\u{1e2c0}', 39822),
    ('\u{1e2fa}', 39823),
    ('\u{1e2ff}', 39824),
    ('\u{1e300}', 39825),
    ('\u{1e800}', 39826),
    ('\u{1e8c5}', 39827),
    ('\u{1e8c7}', 39828),
    ('\u{1e8d0}', 39829),
    ('\u{1e8d7}', 39830),
    ('\u{1e900}', 7063),
    ('\u{1e922}', 39865),
    ('\u{1e94c}', 39866),
    ('\u{1e950}', 39867),
    ('\u{1e95a}', 39868),
    ('\u{1e95e}', 39869),
    ('\u{1e960}', 39870),
    ('\u{1ec71}', 39871),
    ('\u{1ecb5}', 39872),
    ('\u{1ed01}', 39873),
    ('\u{1ed3e}', 39874),
    ('\u{1ee00}', 7107),
    ('\u{1ee25}', 39912),
    ('\u{1ee27}', 7145),
    ('\u{1ee3c}', 39934),
    ('\u{1ee42}', 39935),
    ('\u{1ee43}', 39936),
    ('\u{1ee47}', 7169),
    ('\u{1ee55}', 39951),
    ('\u{1ee57}', 7184),
    ('\u{1ee65}', 39966),
    ('\u{1ee67}', 7199),
    ('\u{1ee9c}', 40020),
    ('\u{1eea1}', 7253),
    ('\u{1eebc}', 40048),
    ('\u{1eef0}', 40049),
    ('\u{1eef2}', 40050),
    ('\u{1f000}', 40051),
    ('\u{1f02c}', 40052),
    ('\u{1f030}', 40053),
    ('\u{1f094}', 40054),
    ('\u{1f0a0}', 40055),
    ('\u{1f0af}', 40056),
    ('\u{1f0b1}', 40057),
    ('\u{1f0c0}', 40058),
    ('\u{1f0c1}', 40059),
    ('\u{1f0d0}', 40060),
    ('\u{1f0d1}', 40061),
    ('\u{1f0f6}', 40062),
    ('\u{1f101}', 7295),
    ('\u{1f10b}', 40073),
    ('\u{1f110}', 7306),
    ('\u{1f150}', 40138),
    ('\u{1f16a}', 7371),
    ('\u{1f16d}', 40142),
    ('\u{1f190}', 40143),
    ('\u{1f191}', 40144),
    ('\u{1f1ae}', 40145),
    ('\u{1f1e6}', 40146),
    ('\u{1f200}', 7379),
    ('\u{1f203}', 40150),
    ('\u{1f210}', 7383),
    ('\u{1f23c}', 40195),
    ('\u{1f240}', 7428),
    ('\u{1f249}', 40205),
    ('\u{1f250}', 7438),
    ('\u{1f252}', 40208),
    ('\u{1f260}', 40209),
    ('\u{1f266}', 40210),
    ('\u{1f300}', 40211),
    ('\u{1f6d8}', 40212),
    ('\u{1f6e0}', 40213),
    ('\u{1f6ed}', 40214),
    ('\u{1f6f0}', 40215),
    ('\u{1f6fd}', 40216),
    ('\u{1f700}', 40217),
    ('\u{1f774}', 40218),
    ('\u{1f780}', 40219),
    ('\u{1f7d9}', 40220),
    ('\u{1f7e0}', 40221),
    ('\u{1f7ec}', 40222),
    ('\u{1f800}', 40223),
    ('\u{1f80c}', 40224),
    ('\u{1f810}', 40225),
    ('\u{1f848}', 40226),
    ('\u{1f850}', 40227),
    ('\u{1f85a}', 40228),
    ('\u{1f860}', 40229),
    ('\u{1f888}', 40230),
    ('\u{1f890}', 40231),
    ('\u{1f8ae}', 40232),
    ('\u{1f8b0}', 40233),
    ('\u{1f8b2}', 40234),
    ('\u{1f900}', 40235),
    ('\u{1f979}', 40236),
    ('\u{1f97a}', 40237),
    ('\u{1f9cc}', 40238),
    ('\u{1f9cd}', 40239),
    ('\u{1fa54}', 40240),
    ('\u{1fa60}', 40241),
    ('\u{1fa6e}', 40242),
    ('\u{1fa70}', 40243),
    ('\u{1fa75}', 40244),
    ('\u{1fa78}', 40245),
    ('\u{1fa7b}', 40246),
    ('\u{1fa80}', 40247),
    ('\u{1fa87}', 40248),
    ('\u{1fa90}', 40249),
    ('\u{1faa9}', 40250),
    ('\u{1fab0}', 40251),
    ('\u{1fab7}', 40252),
    ('\u{1fac0}', 40253),
    ('\u{1fac3}', 40254),
    ('\u{1fad0}', 40255),
    ('\u{1fad7}', 40256),
    ('\u{1fb00}', 40257),
    ('\u{1fb93}', 40258),
    ('\u{1fb94}', 40259),
    ('\u{1fbcb}', 40260),
    ('\u{1fbf0}', 7493),
    ('\u{1fbfa}', 40271),
    ('\u{20000}', 40272),
    ('\u{2a6de}', 40273),
    ('\u{2a700}', 40274),
    ('\u{2b735}', 40275),
    ('\u{2b740}', 40276),
    ('\u{2b81e}', 40277),
    ('\u{2b820}', 40278),
    ('\u{2cea2}', 40279),
    ('\u{2ceb0}', 40280),
    ('\u{2ebe1}', 40281),
    ('\u{2f800}', 7514),
    ('\u{2f831}', 40331),
    ('\u{2f834}', 7564),
    ('\u{2f845}', 40349),
    ('\u{2f847}', 7582),
    ('\u{2f86a}', 40385),
    ('\u{2f86c}', 7618),
    ('\u{2f891}', 40423),
    ('\u{2f893}', 40424),
    ('\u{2f894}', 40425),
    ('\u{2f896}', 7658),
    ('\u{2f92c}', 40576),
    ('\u{2f92e}', 7809),
    ('\u{2f946}', 40601),
    ('\u{2f948}', 7834),
    ('\u{2f95d}', 40623),
    ('\u{2f95f}', 7856),
    ('\u{2f9fe}', 40783),
    ('\u{2fa00}', 8016),
    ('\u{2fa1e}', 40814),
    ('\u{30000}', 40815),
    ('\u{3134b}', 40816),
    ('\u{e0100}', 40817),
    ('\u{e01f0}', 40818),
];

static MAPPING_TABLE: &[Mapping] = &[
    DisallowedStd3Valid,
    Valid,
    DisallowedStd3Valid,
    Valid,
    DisallowedStd3Valid,
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    DisallowedStd3Valid,
    Valid,
    DisallowedStd3Valid,
    Disallowed,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 26, byte_start_hi: 0, byte_len: 1 }),
    DisallowedIdna2008,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 27, byte_start_hi: 0, byte_len: 3 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    DisallowedIdna2008,
    Ignored,
    DisallowedIdna2008,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 30, byte_start_hi: 0, byte_len: 3 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 0, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 35, byte_start_hi: 0, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 0, byte_len: 2 }),
    DisallowedIdna2008,
    Valid,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 0, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 0, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 0, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 0, byte_len: 5 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 59, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 61, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 63, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 65, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 67, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 69, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 71, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 73, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 75, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 77, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 79, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 81, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 83, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 87, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 89, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 91, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 93, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 95, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 99, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 101, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 103, byte_start_hi: 0, byte_len: 2 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 105, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 107, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 109, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 111, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 113, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 115, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 117, byte_start_hi: 0, byte_len: 2 }),
    Deviation(StringTableSlice { byte_start_lo: 119, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    DisallowedIdna2008,
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 121, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 123, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 125, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 127, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 129, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 131, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 133, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 135, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 137, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 139, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 141, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 143, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 145, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 147, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 149, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 151, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 153, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 155, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 157, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 159, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 161, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 163, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 165, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 167, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 0, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 172, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 174, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 176, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 178, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 180, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 182, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 184, byte_start_hi: 0, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 187, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 189, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 191, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 195, byte_start_hi: 0, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 198, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 200, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 202, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 204, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 206, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 208, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 210, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 212, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 214, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 216, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 218, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 220, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 222, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 224, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 226, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 228, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 230, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 232, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 234, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 236, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 238, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 240, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 242, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 244, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 246, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 248, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 250, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 252, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 254, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 26, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 30, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 36, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 42, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 62, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 66, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 68, byte_start_hi: 1, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 71, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 73, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 75, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 77, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 79, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 81, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 83, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 87, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 89, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 91, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 93, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 95, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 99, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 101, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 103, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 105, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 107, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 109, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 111, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 113, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 115, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 117, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 119, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 121, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 123, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 125, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 127, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 129, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 131, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 133, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 135, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 137, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 139, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 141, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 143, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 145, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 147, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 149, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 151, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 153, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 155, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 157, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 159, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 161, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 163, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 165, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 167, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 171, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 173, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 175, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 177, byte_start_hi: 1, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 180, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 182, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 184, byte_start_hi: 1, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 187, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 189, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 191, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 195, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 197, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 199, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 201, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 203, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 207, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 209, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 211, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 213, byte_start_hi: 1, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 216, byte_start_hi: 1, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 219, byte_start_hi: 1, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 222, byte_start_hi: 1, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 225, byte_start_hi: 1, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 228, byte_start_hi: 1, byte_len: 3 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 231, byte_start_hi: 1, byte_len: 2 }),
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 233, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 235, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 237, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 239, byte_start_hi: 1, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 243, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Ignored,
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 245, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 247, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 249, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 251, byte_start_hi: 1, byte_len: 2 }),
    Valid,
    Disallowed,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 253, byte_start_hi: 1, byte_len: 3 }),
    Valid,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 2, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 2, byte_len: 2 }),
    Disallowed,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 35, byte_start_hi: 0, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 2, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 2, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 2, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 26, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 30, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 36, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 243, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 42, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 2, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 62, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 66, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 68, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 70, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Deviation(StringTableSlice { byte_start_lo: 54, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 72, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 26, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 70, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 74, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 76, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 78, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 80, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 82, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 84, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 86, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 88, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 90, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 92, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 94, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 96, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 2, byte_len: 2 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 98, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 100, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 102, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 104, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 106, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 108, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 110, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 112, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 114, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 116, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 118, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 120, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 122, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 124, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 126, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 128, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 130, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 132, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 134, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 136, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 138, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 140, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 142, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 144, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 146, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 148, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 150, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 152, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 154, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 156, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 158, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 160, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 162, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 164, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 166, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 168, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 170, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 172, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 174, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 176, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 178, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 180, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 182, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 184, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 186, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 188, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 190, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 192, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 194, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 196, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 198, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 200, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 202, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 204, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 206, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 208, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 210, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 212, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 214, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 216, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 218, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 220, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 222, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 224, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 226, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 228, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 230, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 232, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 234, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 236, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 238, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 240, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 242, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 244, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 246, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 248, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 250, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 252, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 254, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 26, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 30, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 36, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 42, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 62, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 66, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 68, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 70, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 72, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 74, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 76, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 78, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 80, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 82, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 84, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 86, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 88, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 90, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 92, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 94, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 96, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 98, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 100, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 102, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 104, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 106, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 108, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 110, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 112, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 114, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 116, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 118, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 120, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 122, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 124, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 126, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 128, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 130, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 132, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 134, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 136, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 138, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 140, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 142, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 144, byte_start_hi: 3, byte_len: 2 }),
    Valid,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 146, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 148, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 150, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 152, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 154, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 156, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 158, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 160, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 162, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 164, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 166, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 168, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 170, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 172, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 174, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 176, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 178, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 180, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 182, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 184, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 186, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 188, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 190, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 192, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 194, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 196, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 198, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 200, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 202, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 204, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 206, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 208, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 210, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 212, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 214, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 216, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 218, byte_start_hi: 3, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 220, byte_start_hi: 3, byte_len: 2 }),
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 222, byte_start_hi: 3, byte_len: 4 }),
    Valid,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 226, byte_start_hi: 3, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 230, byte_start_hi: 3, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 234, byte_start_hi: 3, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 238, byte_start_hi: 3, byte_len: 4 }),
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 242, byte_start_hi: 3, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 248, byte_start_hi: 3, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 254, byte_start_hi: 3, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 4, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 4, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 4, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 4, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 4, byte_len: 6 }),
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 4, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 4, byte_len: 6 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 4, byte_len: 6 }),
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 4, byte_len: 6 }),
    Disallowed,
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 4, byte_len: 6 }),
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 4, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 70, byte_start_hi: 4, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 76, byte_start_hi: 4, byte_len: 6 }),
    Valid,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 82, byte_start_hi: 4, byte_len: 6 }),
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 88, byte_start_hi: 4, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 94, byte_start_hi: 4, byte_len: 6 }),
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 100, byte_start_hi: 4, byte_len: 6 }),
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 106, byte_start_hi: 4, byte_len: 6 }),
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 112, byte_start_hi: 4, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 118, byte_start_hi: 4, byte_len: 6 }),
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 124, byte_start_hi: 4, byte_len: 3 }),
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 127, byte_start_hi: 4, byte_len: 6 }),
    Valid,
    Disallowed,
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 133, byte_start_hi: 4, byte_len: 6 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 139, byte_start_hi: 4, byte_len: 6 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 145, byte_start_hi: 4, byte_len: 6 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 151, byte_start_hi: 4, byte_len: 6 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 157, byte_start_hi: 4, byte_len: 6 }),
    Valid,
    Disallowed,
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 163, byte_start_hi: 4, byte_len: 6 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 4, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 175, byte_start_hi: 4, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 181, byte_start_hi: 4, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 190, byte_start_hi: 4, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 196, byte_start_hi: 4, byte_len: 9 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 4, byte_len: 6 }),
    Valid,
    DisallowedIdna2008,
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 211, byte_start_hi: 4, byte_len: 6 }),
    Valid,
    Disallowed,
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 217, byte_start_hi: 4, byte_len: 6 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 223, byte_start_hi: 4, byte_len: 6 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 229, byte_start_hi: 4, byte_len: 6 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 235, byte_start_hi: 4, byte_len: 6 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 241, byte_start_hi: 4, byte_len: 6 }),
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 247, byte_start_hi: 4, byte_len: 3 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 250, byte_start_hi: 4, byte_len: 3 }),
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 253, byte_start_hi: 4, byte_len: 3 }),
    Valid,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 5, byte_len: 3 }),
    Disallowed,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Ignored,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 144, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 148, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 168, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 174, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 176, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 192, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 206, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 5, byte_len: 3 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 27, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 30, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 36, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 39, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 42, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 51, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 253, byte_start_hi: 4, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 57, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 63, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 66, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 69, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 72, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 75, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 78, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 81, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 84, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 87, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 90, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 93, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 96, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 99, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 102, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 105, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 108, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 111, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 114, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 117, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 120, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 123, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 126, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 129, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 132, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 135, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 138, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 141, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 144, byte_start_hi: 5, byte_len: 3 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 147, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 150, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 153, byte_start_hi: 5, byte_len: 3 }),
    DisallowedIdna2008,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 71, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 159, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 156, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 158, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 160, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 163, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 198, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 165, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 168, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 171, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 30, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 174, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 26, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 30, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 62, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 26, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 62, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 166, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 177, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 179, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 91, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 163, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 181, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 183, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 185, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 26, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 187, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 189, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 192, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 194, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 196, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 199, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 201, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 203, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 207, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 209, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 211, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 213, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 191, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 215, byte_start_hi: 5, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 218, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 220, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 62, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Disallowed,
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 222, byte_start_hi: 5, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 225, byte_start_hi: 5, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 228, byte_start_hi: 5, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 231, byte_start_hi: 5, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 234, byte_start_hi: 5, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 237, byte_start_hi: 5, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 240, byte_start_hi: 5, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 243, byte_start_hi: 5, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 246, byte_start_hi: 5, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 249, byte_start_hi: 5, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 252, byte_start_hi: 5, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 255, byte_start_hi: 5, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 26, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 29, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 35, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 41, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 47, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 53, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 59, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 62, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 65, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 68, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 71, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 74, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 77, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 80, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 83, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 86, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 89, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 92, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 95, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 98, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 101, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 104, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 107, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 110, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 113, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 116, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 119, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 122, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 125, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 128, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 131, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 134, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 137, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 140, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 143, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 146, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 149, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 152, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 155, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 158, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 161, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 164, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 167, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 170, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 173, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 176, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 179, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 182, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 185, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 188, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 191, byte_start_hi: 6, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 110, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 119, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 194, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 197, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 200, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 203, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 206, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 209, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 212, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 215, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 218, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 221, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 224, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 227, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 230, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 233, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 236, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 239, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 242, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 245, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 248, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 251, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 254, byte_start_hi: 6, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 31, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 37, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 55, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 61, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 67, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 70, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 73, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 76, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 79, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 82, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 88, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 91, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 94, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 100, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 103, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 106, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 109, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 112, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 115, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 118, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 121, byte_start_hi: 7, byte_len: 3 }),
    Disallowed,
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 124, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 127, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 130, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 133, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 136, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 139, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 142, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 145, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 148, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 151, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 154, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 157, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 160, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 163, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 166, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 172, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 175, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 178, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 181, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 184, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 187, byte_start_hi: 7, byte_len: 3 }),
    Disallowed,
    Valid,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 190, byte_start_hi: 7, byte_len: 3 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 7, byte_len: 3 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 196, byte_start_hi: 7, byte_len: 3 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 199, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 202, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 208, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 211, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 214, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 217, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 220, byte_start_hi: 7, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 223, byte_start_hi: 7, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 2, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 226, byte_start_hi: 7, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 231, byte_start_hi: 7, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 236, byte_start_hi: 7, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 241, byte_start_hi: 7, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 246, byte_start_hi: 7, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 251, byte_start_hi: 7, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 226, byte_start_hi: 7, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 231, byte_start_hi: 7, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 236, byte_start_hi: 7, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 241, byte_start_hi: 7, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 246, byte_start_hi: 7, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 251, byte_start_hi: 7, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 30, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 35, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 30, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 35, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 55, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 65, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 70, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 75, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 80, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 55, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 65, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 70, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 75, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 80, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 8, byte_len: 5 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 90, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 95, byte_start_hi: 8, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 99, byte_start_hi: 8, byte_len: 4 }),
    Disallowed,
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 103, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 108, byte_start_hi: 8, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 111, byte_start_hi: 8, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 114, byte_start_hi: 8, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 95, byte_start_hi: 8, byte_len: 4 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 117, byte_start_hi: 8, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 243, byte_start_hi: 1, byte_len: 2 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 117, byte_start_hi: 8, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 120, byte_start_hi: 8, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 123, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 128, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 133, byte_start_hi: 8, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 137, byte_start_hi: 8, byte_len: 4 }),
    Disallowed,
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 141, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 146, byte_start_hi: 8, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 149, byte_start_hi: 8, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 133, byte_start_hi: 8, byte_len: 4 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 152, byte_start_hi: 8, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 157, byte_start_hi: 8, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 162, byte_start_hi: 8, byte_len: 5 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 167, byte_start_hi: 8, byte_len: 2 }),
    Disallowed,
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 8, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 172, byte_start_hi: 8, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 175, byte_start_hi: 8, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 2, byte_len: 2 }),
    Disallowed,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 178, byte_start_hi: 8, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 183, byte_start_hi: 8, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 188, byte_start_hi: 8, byte_len: 5 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 8, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 195, byte_start_hi: 8, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 198, byte_start_hi: 8, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 201, byte_start_hi: 8, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 204, byte_start_hi: 8, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 207, byte_start_hi: 8, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 2, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 212, byte_start_hi: 8, byte_len: 1 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 213, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 218, byte_start_hi: 8, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 222, byte_start_hi: 8, byte_len: 4 }),
    Disallowed,
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 226, byte_start_hi: 8, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 231, byte_start_hi: 8, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 234, byte_start_hi: 8, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 218, byte_start_hi: 8, byte_len: 4 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 35, byte_start_hi: 0, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 237, byte_start_hi: 8, byte_len: 3 }),
    Disallowed,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 26, byte_start_hi: 0, byte_len: 1 }),
    Ignored,
    Deviation(StringTableSlice { byte_start_lo: 240, byte_start_hi: 8, byte_len: 0 }),
    Disallowed,
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 240, byte_start_hi: 8, byte_len: 3 }),
    DisallowedIdna2008,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 243, byte_start_hi: 8, byte_len: 3 }),
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 26, byte_start_hi: 0, byte_len: 1 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 246, byte_start_hi: 8, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 252, byte_start_hi: 8, byte_len: 9 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 9, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 9, byte_len: 9 }),
    DisallowedIdna2008,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 9, byte_len: 2 }),
    DisallowedIdna2008,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 9, byte_len: 3 }),
    DisallowedIdna2008,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 9, byte_len: 2 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 27, byte_start_hi: 9, byte_len: 2 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 29, byte_start_hi: 9, byte_len: 2 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 31, byte_start_hi: 9, byte_len: 12 }),
    DisallowedIdna2008,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 26, byte_start_hi: 0, byte_len: 1 }),
    Ignored,
    Disallowed,
    Ignored,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 47, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 9, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 51, byte_start_hi: 9, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 9, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 55, byte_start_hi: 9, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 47, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 9, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 51, byte_start_hi: 9, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 9, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 55, byte_start_hi: 9, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 9, byte_len: 1 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Disallowed,
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 57, byte_start_hi: 9, byte_len: 2 }),
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 59, byte_start_hi: 9, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 62, byte_start_hi: 9, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 65, byte_start_hi: 9, byte_len: 3 }),
    DisallowedIdna2008,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 68, byte_start_hi: 9, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 71, byte_start_hi: 9, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 1, byte_len: 2 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 74, byte_start_hi: 9, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 159, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 77, byte_start_hi: 9, byte_len: 2 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 79, byte_start_hi: 9, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 81, byte_start_hi: 9, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 84, byte_start_hi: 9, byte_len: 2 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 66, byte_start_hi: 2, byte_len: 2 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 69, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 86, byte_start_hi: 9, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 88, byte_start_hi: 9, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 90, byte_start_hi: 9, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 92, byte_start_hi: 9, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 94, byte_start_hi: 9, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 9, byte_len: 3 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 100, byte_start_hi: 9, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 105, byte_start_hi: 9, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 110, byte_start_hi: 9, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 116, byte_start_hi: 9, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 121, byte_start_hi: 9, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 126, byte_start_hi: 9, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 131, byte_start_hi: 9, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 136, byte_start_hi: 9, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 141, byte_start_hi: 9, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 146, byte_start_hi: 9, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 151, byte_start_hi: 9, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 156, byte_start_hi: 9, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 161, byte_start_hi: 9, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 166, byte_start_hi: 9, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 171, byte_start_hi: 9, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 176, byte_start_hi: 9, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 180, byte_start_hi: 9, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 182, byte_start_hi: 9, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 185, byte_start_hi: 9, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 187, byte_start_hi: 9, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 189, byte_start_hi: 9, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 192, byte_start_hi: 9, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 196, byte_start_hi: 9, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 198, byte_start_hi: 9, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 200, byte_start_hi: 9, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 180, byte_start_hi: 9, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 182, byte_start_hi: 9, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 185, byte_start_hi: 9, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 187, byte_start_hi: 9, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 189, byte_start_hi: 9, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 192, byte_start_hi: 9, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 196, byte_start_hi: 9, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 198, byte_start_hi: 9, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 200, byte_start_hi: 9, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    DisallowedIdna2008,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 203, byte_start_hi: 9, byte_len: 5 }),
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 208, byte_start_hi: 9, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 214, byte_start_hi: 9, byte_len: 9 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 223, byte_start_hi: 9, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 229, byte_start_hi: 9, byte_len: 9 }),
    DisallowedIdna2008,
    DisallowedStd3Valid,
    DisallowedIdna2008,
    DisallowedStd3Valid,
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 238, byte_start_hi: 9, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 241, byte_start_hi: 9, byte_len: 3 }),
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 47, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 244, byte_start_hi: 9, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 246, byte_start_hi: 9, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 248, byte_start_hi: 9, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 250, byte_start_hi: 9, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 252, byte_start_hi: 9, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 254, byte_start_hi: 9, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 10, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 10, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 10, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 10, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 10, byte_len: 2 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 31, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 37, byte_start_hi: 10, byte_len: 4 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 41, byte_start_hi: 10, byte_len: 4 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 10, byte_len: 4 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 10, byte_len: 4 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 53, byte_start_hi: 10, byte_len: 4 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 57, byte_start_hi: 10, byte_len: 4 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 61, byte_start_hi: 10, byte_len: 4 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 65, byte_start_hi: 10, byte_len: 4 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 69, byte_start_hi: 10, byte_len: 4 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 73, byte_start_hi: 10, byte_len: 4 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 77, byte_start_hi: 10, byte_len: 4 }),
    Disallowed,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 81, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 84, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 87, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 90, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 93, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 96, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 99, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 102, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 105, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 108, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 111, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 114, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 117, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 120, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 123, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 126, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 129, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 132, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 135, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 138, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 141, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 144, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 147, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 150, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 153, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 156, byte_start_hi: 10, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 9, byte_len: 1 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 159, byte_start_hi: 10, byte_len: 12 }),
    DisallowedIdna2008,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 171, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 174, byte_start_hi: 10, byte_len: 2 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 176, byte_start_hi: 10, byte_len: 3 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 179, byte_start_hi: 10, byte_len: 5 }),
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 184, byte_start_hi: 10, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 187, byte_start_hi: 10, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 190, byte_start_hi: 10, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 10, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 196, byte_start_hi: 10, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 199, byte_start_hi: 10, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 202, byte_start_hi: 10, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 10, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 208, byte_start_hi: 10, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 211, byte_start_hi: 10, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 214, byte_start_hi: 10, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 217, byte_start_hi: 10, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 220, byte_start_hi: 10, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 223, byte_start_hi: 10, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 226, byte_start_hi: 10, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 229, byte_start_hi: 10, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 232, byte_start_hi: 10, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 235, byte_start_hi: 10, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 238, byte_start_hi: 10, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 241, byte_start_hi: 10, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 244, byte_start_hi: 10, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 247, byte_start_hi: 10, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 250, byte_start_hi: 10, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 253, byte_start_hi: 10, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 11, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 11, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 11, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 11, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 11, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 11, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 11, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 11, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 11, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 27, byte_start_hi: 11, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 30, byte_start_hi: 11, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 11, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 36, byte_start_hi: 11, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 39, byte_start_hi: 11, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 42, byte_start_hi: 11, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 11, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 11, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 51, byte_start_hi: 11, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 11, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 57, byte_start_hi: 11, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 11, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 63, byte_start_hi: 11, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 66, byte_start_hi: 11, byte_len: 3 }),
    Disallowed,
    Valid,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 69, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 72, byte_start_hi: 11, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 74, byte_start_hi: 11, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 77, byte_start_hi: 11, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 79, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 82, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 158, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 201, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 156, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 177, byte_start_hi: 5, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 88, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 91, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 94, byte_start_hi: 11, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 96, byte_start_hi: 11, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 98, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 101, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 104, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 107, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 110, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 113, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 116, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 119, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 122, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 125, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 128, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 131, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 134, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 137, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 140, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 143, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 146, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 149, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 152, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 155, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 158, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 161, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 164, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 167, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 170, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 173, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 176, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 179, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 182, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 185, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 188, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 191, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 194, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 197, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 200, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 203, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 206, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 209, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 212, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 215, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 218, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 221, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 224, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 227, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 230, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 233, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 236, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 239, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 242, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 245, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 248, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 251, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 254, byte_start_hi: 11, byte_len: 3 }),
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 12, byte_len: 3 }),
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 12, byte_len: 3 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 12, byte_len: 3 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 31, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 37, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 55, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 61, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 67, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 70, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 73, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 76, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 79, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 82, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 88, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 91, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 94, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 100, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 103, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 106, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 109, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 112, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 115, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 118, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 121, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 124, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 127, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 130, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 133, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 136, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 139, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 142, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 145, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 148, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 151, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 154, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 157, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 160, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 163, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 166, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 172, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 175, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 178, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 181, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 184, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 187, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 190, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 196, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 199, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 202, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 208, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 211, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 214, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 217, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 220, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 223, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 226, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 229, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 232, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 235, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 238, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 241, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 244, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 247, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 250, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 253, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 27, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 30, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 36, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 39, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 42, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 51, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 57, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 63, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 66, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 69, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 72, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 75, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 78, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 81, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 84, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 87, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 90, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 93, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 96, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 99, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 102, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 105, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 108, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 111, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 114, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 117, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 120, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 123, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 126, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 129, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 132, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 135, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 138, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 141, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 144, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 147, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 150, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 153, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 156, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 159, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 162, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 165, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 168, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 171, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 174, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 177, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 180, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 183, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 186, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 189, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 192, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 195, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 198, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 201, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 204, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 207, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 210, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 213, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 216, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 219, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 222, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 225, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 228, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 231, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 234, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 237, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 240, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 243, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 246, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 249, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 252, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 255, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 26, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 29, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 35, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 41, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 47, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 53, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 59, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 62, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 65, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 68, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 71, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 74, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 77, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 80, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 83, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 86, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 89, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 92, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 95, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 98, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 101, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 104, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 107, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 110, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 113, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 116, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 119, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 122, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 125, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 128, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 131, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 134, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 137, byte_start_hi: 14, byte_len: 3 }),
    Disallowed,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 26, byte_start_hi: 0, byte_len: 1 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 140, byte_start_hi: 14, byte_len: 1 }),
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 141, byte_start_hi: 14, byte_len: 3 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 79, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 144, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 147, byte_start_hi: 14, byte_len: 3 }),
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 150, byte_start_hi: 14, byte_len: 4 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 154, byte_start_hi: 14, byte_len: 4 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 158, byte_start_hi: 14, byte_len: 6 }),
    DisallowedIdna2008,
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 164, byte_start_hi: 14, byte_len: 6 }),
    Disallowed,
    Valid,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 170, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 173, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 176, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 179, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 182, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 185, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 188, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 191, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 194, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 197, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 200, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 203, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 206, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 209, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 212, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 215, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 218, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 221, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 224, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 227, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 230, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 233, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 236, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 239, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 242, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 245, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 248, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 251, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 254, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 31, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 37, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 55, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 61, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 15, byte_len: 3 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 67, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 70, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 73, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 76, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 79, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 82, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 88, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 91, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 94, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 100, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 103, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 106, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 109, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 112, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 115, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 118, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 121, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 124, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 127, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 130, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 133, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 136, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 139, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 142, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 145, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 148, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 151, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 154, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 157, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 160, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 163, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 166, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 172, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 175, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 178, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 181, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 184, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 187, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 190, byte_start_hi: 15, byte_len: 3 }),
    Disallowed,
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 196, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 199, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 202, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 208, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 211, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 214, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 217, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 220, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 12, byte_len: 3 }),
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 223, byte_start_hi: 15, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 228, byte_start_hi: 15, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 233, byte_start_hi: 15, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 238, byte_start_hi: 15, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 243, byte_start_hi: 15, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 248, byte_start_hi: 15, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 253, byte_start_hi: 15, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 27, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 37, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 42, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 47, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 57, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 62, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 67, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 72, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 77, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 82, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 87, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 92, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 102, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 107, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 112, byte_start_hi: 16, byte_len: 8 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 120, byte_start_hi: 16, byte_len: 8 }),
    Disallowed,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 128, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 133, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 138, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 143, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 148, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 153, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 158, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 163, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 168, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 173, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 178, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 183, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 188, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 198, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 203, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 208, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 213, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 218, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 223, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 228, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 233, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 238, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 243, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 248, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 253, byte_start_hi: 16, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 17, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 17, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 17, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 17, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 17, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 27, byte_start_hi: 17, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 17, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 37, byte_start_hi: 17, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 42, byte_start_hi: 17, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 47, byte_start_hi: 17, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 55, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 208, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 17, byte_len: 3 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 61, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 17, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 66, byte_start_hi: 17, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 68, byte_start_hi: 17, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 70, byte_start_hi: 17, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 72, byte_start_hi: 17, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 74, byte_start_hi: 17, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 76, byte_start_hi: 17, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 78, byte_start_hi: 17, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 80, byte_start_hi: 17, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 82, byte_start_hi: 17, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 84, byte_start_hi: 17, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 86, byte_start_hi: 17, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 88, byte_start_hi: 17, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 90, byte_start_hi: 17, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 92, byte_start_hi: 17, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 170, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 179, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 188, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 194, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 218, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 221, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 230, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 236, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 239, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 245, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 248, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 251, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 254, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 94, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 100, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 103, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 106, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 109, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 112, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 115, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 118, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 121, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 124, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 127, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 130, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 133, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 136, byte_start_hi: 17, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 142, byte_start_hi: 17, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 148, byte_start_hi: 17, byte_len: 3 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 196, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 151, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 154, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 157, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 160, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 79, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 229, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 232, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 252, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 103, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 223, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 163, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 166, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 172, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 175, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 178, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 181, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 184, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 187, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 190, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 121, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 196, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 199, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 202, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 208, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 211, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 214, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 199, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 202, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 217, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 220, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 223, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 226, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 229, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 232, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 235, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 238, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 241, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 244, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 247, byte_start_hi: 17, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 249, byte_start_hi: 17, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 251, byte_start_hi: 17, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 253, byte_start_hi: 17, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 255, byte_start_hi: 17, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 18, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 18, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 18, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 18, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 18, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 18, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 18, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 18, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 18, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 18, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 18, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 18, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 29, byte_start_hi: 18, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 18, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 37, byte_start_hi: 18, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 41, byte_start_hi: 18, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 18, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 18, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 53, byte_start_hi: 18, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 57, byte_start_hi: 18, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 62, byte_start_hi: 18, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 67, byte_start_hi: 18, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 72, byte_start_hi: 18, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 74, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 77, byte_start_hi: 18, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 79, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 82, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 88, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 91, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 94, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 100, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 103, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 106, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 109, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 112, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 115, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 118, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 121, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 124, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 127, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 130, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 133, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 136, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 139, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 142, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 145, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 148, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 151, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 154, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 157, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 160, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 163, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 166, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 172, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 175, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 178, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 181, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 184, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 187, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 190, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 196, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 199, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 202, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 208, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 211, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 214, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 217, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 220, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 223, byte_start_hi: 18, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 229, byte_start_hi: 18, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 241, byte_start_hi: 18, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 253, byte_start_hi: 18, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 19, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 19, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 30, byte_start_hi: 19, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 39, byte_start_hi: 19, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 19, byte_len: 15 }),
    Mapped(StringTableSlice { byte_start_lo: 63, byte_start_hi: 19, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 75, byte_start_hi: 19, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 84, byte_start_hi: 19, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 93, byte_start_hi: 19, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 102, byte_start_hi: 19, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 114, byte_start_hi: 19, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 126, byte_start_hi: 19, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 135, byte_start_hi: 19, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 144, byte_start_hi: 19, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 150, byte_start_hi: 19, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 159, byte_start_hi: 19, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 171, byte_start_hi: 19, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 183, byte_start_hi: 19, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 189, byte_start_hi: 19, byte_len: 15 }),
    Mapped(StringTableSlice { byte_start_lo: 204, byte_start_hi: 19, byte_len: 18 }),
    Mapped(StringTableSlice { byte_start_lo: 222, byte_start_hi: 19, byte_len: 15 }),
    Mapped(StringTableSlice { byte_start_lo: 237, byte_start_hi: 19, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 246, byte_start_hi: 19, byte_len: 15 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 20, byte_len: 15 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 20, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 20, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 41, byte_start_hi: 20, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 20, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 59, byte_start_hi: 20, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 71, byte_start_hi: 20, byte_len: 15 }),
    Mapped(StringTableSlice { byte_start_lo: 86, byte_start_hi: 20, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 98, byte_start_hi: 20, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 107, byte_start_hi: 20, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 116, byte_start_hi: 20, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 125, byte_start_hi: 20, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 131, byte_start_hi: 20, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 137, byte_start_hi: 20, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 143, byte_start_hi: 20, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 149, byte_start_hi: 20, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 158, byte_start_hi: 20, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 167, byte_start_hi: 20, byte_len: 15 }),
    Mapped(StringTableSlice { byte_start_lo: 182, byte_start_hi: 20, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 191, byte_start_hi: 20, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 203, byte_start_hi: 20, byte_len: 15 }),
    Mapped(StringTableSlice { byte_start_lo: 218, byte_start_hi: 20, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 227, byte_start_hi: 20, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 233, byte_start_hi: 20, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 239, byte_start_hi: 20, byte_len: 15 }),
    Mapped(StringTableSlice { byte_start_lo: 254, byte_start_hi: 20, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 21, byte_len: 15 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 21, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 21, byte_len: 15 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 21, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 55, byte_start_hi: 21, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 21, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 73, byte_start_hi: 21, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 82, byte_start_hi: 21, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 91, byte_start_hi: 21, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 100, byte_start_hi: 21, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 112, byte_start_hi: 21, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 121, byte_start_hi: 21, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 127, byte_start_hi: 21, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 136, byte_start_hi: 21, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 145, byte_start_hi: 21, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 154, byte_start_hi: 21, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 166, byte_start_hi: 21, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 175, byte_start_hi: 21, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 184, byte_start_hi: 21, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 21, byte_len: 15 }),
    Mapped(StringTableSlice { byte_start_lo: 208, byte_start_hi: 21, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 220, byte_start_hi: 21, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 226, byte_start_hi: 21, byte_len: 15 }),
    Mapped(StringTableSlice { byte_start_lo: 241, byte_start_hi: 21, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 247, byte_start_hi: 21, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 22, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 22, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 22, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 22, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 42, byte_start_hi: 22, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 22, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 22, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 69, byte_start_hi: 22, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 81, byte_start_hi: 22, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 87, byte_start_hi: 22, byte_len: 15 }),
    Mapped(StringTableSlice { byte_start_lo: 102, byte_start_hi: 22, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 111, byte_start_hi: 22, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 115, byte_start_hi: 22, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 119, byte_start_hi: 22, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 123, byte_start_hi: 22, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 127, byte_start_hi: 22, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 131, byte_start_hi: 22, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 135, byte_start_hi: 22, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 139, byte_start_hi: 22, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 143, byte_start_hi: 22, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 147, byte_start_hi: 22, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 151, byte_start_hi: 22, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 156, byte_start_hi: 22, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 161, byte_start_hi: 22, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 166, byte_start_hi: 22, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 171, byte_start_hi: 22, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 176, byte_start_hi: 22, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 181, byte_start_hi: 22, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 186, byte_start_hi: 22, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 191, byte_start_hi: 22, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 196, byte_start_hi: 22, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 201, byte_start_hi: 22, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 206, byte_start_hi: 22, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 211, byte_start_hi: 22, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 216, byte_start_hi: 22, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 221, byte_start_hi: 22, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 226, byte_start_hi: 22, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 229, byte_start_hi: 22, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 231, byte_start_hi: 22, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 233, byte_start_hi: 22, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 236, byte_start_hi: 22, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 238, byte_start_hi: 22, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 240, byte_start_hi: 22, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 242, byte_start_hi: 22, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 245, byte_start_hi: 22, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 248, byte_start_hi: 22, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 250, byte_start_hi: 22, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 23, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 23, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 23, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 23, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 30, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 23, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 37, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 39, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 41, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 47, byte_start_hi: 23, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 23, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 23, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 61, byte_start_hi: 23, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 66, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 68, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 70, byte_start_hi: 23, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 73, byte_start_hi: 23, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 76, byte_start_hi: 23, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 79, byte_start_hi: 23, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 82, byte_start_hi: 23, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 87, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 89, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 91, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 93, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 95, byte_start_hi: 23, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 98, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 100, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 102, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 104, byte_start_hi: 23, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 107, byte_start_hi: 23, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 110, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 112, byte_start_hi: 23, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 115, byte_start_hi: 23, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 118, byte_start_hi: 23, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 121, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 123, byte_start_hi: 23, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 126, byte_start_hi: 23, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 131, byte_start_hi: 23, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 30, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 137, byte_start_hi: 23, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 140, byte_start_hi: 23, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 143, byte_start_hi: 23, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 146, byte_start_hi: 23, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 149, byte_start_hi: 23, byte_len: 7 }),
    Mapped(StringTableSlice { byte_start_lo: 156, byte_start_hi: 23, byte_len: 8 }),
    Mapped(StringTableSlice { byte_start_lo: 164, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 166, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 168, byte_start_hi: 23, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 171, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 173, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 175, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 177, byte_start_hi: 23, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 180, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 182, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 180, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 184, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 186, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 188, byte_start_hi: 23, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 191, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 191, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 195, byte_start_hi: 23, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 198, byte_start_hi: 23, byte_len: 3 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 201, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 203, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 207, byte_start_hi: 23, byte_len: 6 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 213, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 215, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 217, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 219, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 221, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 223, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 102, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 225, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 227, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 229, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 231, byte_start_hi: 23, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 234, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 236, byte_start_hi: 23, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 239, byte_start_hi: 23, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 242, byte_start_hi: 23, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 244, byte_start_hi: 23, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 247, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 249, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 251, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 253, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 255, byte_start_hi: 23, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 24, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 24, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 24, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 24, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 24, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 24, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 29, byte_start_hi: 24, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 24, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 37, byte_start_hi: 24, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 41, byte_start_hi: 24, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 24, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 24, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 55, byte_start_hi: 24, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 24, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 65, byte_start_hi: 24, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 70, byte_start_hi: 24, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 75, byte_start_hi: 24, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 80, byte_start_hi: 24, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 24, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 90, byte_start_hi: 24, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 95, byte_start_hi: 24, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 100, byte_start_hi: 24, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 105, byte_start_hi: 24, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 110, byte_start_hi: 24, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 115, byte_start_hi: 24, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 120, byte_start_hi: 24, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 125, byte_start_hi: 24, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 130, byte_start_hi: 24, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 135, byte_start_hi: 24, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 140, byte_start_hi: 24, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 145, byte_start_hi: 24, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 150, byte_start_hi: 24, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 155, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 158, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 161, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 164, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 167, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 170, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 5, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 173, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 176, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 179, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 182, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 185, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 188, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 191, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 194, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 197, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 200, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 203, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 206, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 209, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 212, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 215, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 218, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 221, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 224, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 227, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 230, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 233, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 236, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 239, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 242, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 245, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 248, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 251, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 254, byte_start_hi: 24, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 192, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 196, byte_start_hi: 2, byte_len: 2 }),
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 31, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 37, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 55, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 61, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 67, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 70, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 73, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 76, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 79, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 82, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 88, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 91, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 94, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 100, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 103, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 106, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 109, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 112, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 115, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 118, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 121, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 121, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 124, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 127, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 130, byte_start_hi: 25, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 133, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 136, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 139, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 142, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 145, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 148, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 185, byte_start_hi: 5, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 151, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 154, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 157, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 160, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 163, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 166, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 172, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 175, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 178, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 181, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 184, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 163, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 183, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 187, byte_start_hi: 25, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 187, byte_start_hi: 5, byte_len: 2 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 189, byte_start_hi: 25, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 191, byte_start_hi: 25, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 192, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 25, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 196, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 199, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 202, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 208, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 211, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 214, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 217, byte_start_hi: 25, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 211, byte_start_hi: 5, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 220, byte_start_hi: 25, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 223, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 226, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 229, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 159, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 206, byte_start_hi: 0, byte_len: 2 }),
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 25, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 232, byte_start_hi: 25, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 72, byte_start_hi: 11, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 235, byte_start_hi: 25, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 238, byte_start_hi: 25, byte_len: 2 }),
    DisallowedIdna2008,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 240, byte_start_hi: 25, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 243, byte_start_hi: 25, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 246, byte_start_hi: 25, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 249, byte_start_hi: 25, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 252, byte_start_hi: 25, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 255, byte_start_hi: 25, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 26, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 29, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 35, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 41, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 47, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 53, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 59, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 62, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 65, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 68, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 71, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 74, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 77, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 80, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 83, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 86, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 89, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 92, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 95, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 98, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 101, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 104, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 107, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 110, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 113, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 116, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 119, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 122, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 125, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 128, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 131, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 134, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 137, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 140, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 143, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 146, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 149, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 152, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 155, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 158, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 161, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 164, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 167, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 170, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 173, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 176, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 179, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 182, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 185, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 188, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 191, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 194, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 197, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 200, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 203, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 206, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 209, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 212, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 215, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 218, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 221, byte_start_hi: 26, byte_len: 3 }),
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 224, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 227, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 228, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 230, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 233, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 236, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 239, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 134, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 242, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 252, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 245, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 248, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 251, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 254, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 31, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 37, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 55, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 61, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 67, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 70, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 73, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 76, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 79, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 82, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 88, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 91, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 94, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 100, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 103, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 106, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 109, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 126, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 112, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 115, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 118, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 121, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 124, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 127, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 130, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 133, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 136, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 139, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 142, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 89, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 145, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 148, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 151, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 154, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 157, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 160, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 163, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 166, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 172, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 175, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 178, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 181, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 184, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 187, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 190, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 196, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 199, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 202, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 208, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 211, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 214, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 217, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 220, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 223, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 226, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 229, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 232, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 235, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 238, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 241, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 244, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 247, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 250, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 253, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 27, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 234, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 30, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 36, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 39, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 42, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 51, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 57, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 63, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 66, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 69, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 72, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 121, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 75, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 78, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 81, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 84, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 87, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 90, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 93, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 96, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 99, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 102, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 105, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 108, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 111, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 114, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 117, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 120, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 123, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 126, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 129, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 132, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 135, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 138, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 141, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 144, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 147, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 150, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 153, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 156, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 159, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 162, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 165, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 168, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 171, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 174, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 177, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 180, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 183, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 186, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 232, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 189, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 192, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 195, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 198, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 201, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 204, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 207, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 210, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 213, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 216, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 219, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 222, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 225, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 228, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 231, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 234, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 237, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 240, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 243, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 246, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 249, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 252, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 255, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 131, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 26, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 29, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 35, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 154, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 41, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 47, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 53, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 59, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 62, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 65, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 238, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 68, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 71, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 74, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 77, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 80, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 83, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 86, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 89, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 92, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 95, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 98, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 101, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 104, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 249, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 107, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 110, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 113, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 116, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 119, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 122, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 125, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 128, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 131, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 134, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 137, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 140, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 143, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 102, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 146, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 149, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 152, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 155, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 158, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 161, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 164, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 167, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 170, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 173, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 176, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 179, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 182, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 185, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 188, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 191, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 183, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 194, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 192, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 197, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 200, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 203, byte_start_hi: 29, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 206, byte_start_hi: 29, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 209, byte_start_hi: 29, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 212, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 215, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 218, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 221, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 224, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 227, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 230, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 233, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 236, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 123, byte_start_hi: 13, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 239, byte_start_hi: 29, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 242, byte_start_hi: 29, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 245, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 248, byte_start_hi: 29, byte_len: 3 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 251, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 254, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 31, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 37, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 142, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 55, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 61, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 67, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 70, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 73, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 76, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 79, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 82, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 88, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 91, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 94, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 100, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 103, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 181, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 106, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 109, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 112, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 115, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 118, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 132, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 121, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 124, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 127, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 130, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 133, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 136, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 139, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 142, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 145, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 148, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 151, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 154, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 157, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 160, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 245, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 163, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 166, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 172, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 175, byte_start_hi: 30, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 179, byte_start_hi: 30, byte_len: 3 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 182, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 185, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 188, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 191, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 194, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 197, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 200, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 203, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 31, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 206, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 209, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 212, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 206, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 215, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 218, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 221, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 224, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 227, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 230, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 233, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 236, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 239, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 242, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 245, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 248, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 55, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 251, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 254, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 209, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 79, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 241, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 27, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 79, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 82, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 31, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 215, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 37, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 218, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 55, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 61, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 67, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 118, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 70, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 73, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 132, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 76, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 130, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 79, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 82, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 88, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 91, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 145, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 94, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 242, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 148, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 226, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 100, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 151, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 103, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 157, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 106, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 109, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 112, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 115, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 118, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 163, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 233, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 121, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 166, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 124, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 127, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 134, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 130, byte_start_hi: 31, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 134, byte_start_hi: 31, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 138, byte_start_hi: 31, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 142, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 145, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 148, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 151, byte_start_hi: 31, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 155, byte_start_hi: 31, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 159, byte_start_hi: 31, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 163, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 166, byte_start_hi: 31, byte_len: 3 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 31, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 171, byte_start_hi: 31, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 173, byte_start_hi: 31, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 175, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 178, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 181, byte_start_hi: 31, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 183, byte_start_hi: 31, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 187, byte_start_hi: 31, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 191, byte_start_hi: 31, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 195, byte_start_hi: 31, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 199, byte_start_hi: 31, byte_len: 4 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 203, byte_start_hi: 31, byte_len: 4 }),
    Valid,
    Mapped(StringTableSlice { byte_start_lo: 207, byte_start_hi: 31, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 211, byte_start_hi: 31, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 86, byte_start_hi: 9, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 92, byte_start_hi: 9, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 213, byte_start_hi: 31, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 215, byte_start_hi: 31, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 217, byte_start_hi: 31, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 219, byte_start_hi: 31, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 221, byte_start_hi: 31, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 223, byte_start_hi: 31, byte_len: 2 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 225, byte_start_hi: 31, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 229, byte_start_hi: 31, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 233, byte_start_hi: 31, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 239, byte_start_hi: 31, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 245, byte_start_hi: 31, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 249, byte_start_hi: 31, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 253, byte_start_hi: 31, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 32, byte_len: 4 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 29, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 37, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 41, byte_start_hi: 32, byte_len: 4 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 32, byte_len: 4 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 53, byte_start_hi: 32, byte_len: 4 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 57, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 61, byte_start_hi: 32, byte_len: 4 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 65, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 69, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 73, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 77, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 81, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 89, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 93, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 101, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 105, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 107, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 109, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 111, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 113, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 115, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 117, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 119, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 121, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 123, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 125, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 127, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 129, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 131, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 133, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 135, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 137, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 139, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 141, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 143, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 145, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 147, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 149, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 151, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 153, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 155, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 157, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 159, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 161, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 163, byte_start_hi: 32, byte_len: 2 }),
    DisallowedIdna2008,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 165, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 167, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 171, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 234, byte_start_hi: 3, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 173, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 175, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 177, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 179, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 181, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 183, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 187, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 191, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 195, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 199, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 203, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 207, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 211, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 215, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 217, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 221, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 225, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 211, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 229, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 233, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 237, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 241, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 245, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 249, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 253, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 29, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 37, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 41, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 53, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 57, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 61, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 65, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 69, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 73, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 77, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 81, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 89, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 93, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 101, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 105, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 109, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 113, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 117, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 121, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 125, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 129, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 133, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 137, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 141, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 145, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 149, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 153, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 157, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 161, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 165, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 173, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 177, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 181, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 185, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 189, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 197, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 201, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 209, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 213, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 217, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 221, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 225, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 229, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 233, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 237, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 241, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 245, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 249, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 253, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 29, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 37, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 41, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 53, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 57, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 61, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 65, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 69, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 73, byte_start_hi: 34, byte_len: 4 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 77, byte_start_hi: 34, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 82, byte_start_hi: 34, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 87, byte_start_hi: 34, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 92, byte_start_hi: 34, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 34, byte_len: 5 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 102, byte_start_hi: 34, byte_len: 5 }),
    Mapped(StringTableSlice { byte_start_lo: 107, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 111, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 225, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 115, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 211, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 229, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 119, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 123, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 245, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 127, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 249, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 253, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 131, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 135, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 139, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 143, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 147, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 29, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 151, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 37, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 153, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 157, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 173, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 177, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 197, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 201, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 221, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 225, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 229, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 155, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 245, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 159, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 163, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 167, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 73, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 171, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 175, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 53, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 179, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 57, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 61, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 217, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 221, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 183, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 225, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 187, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 233, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 237, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 241, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 245, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 191, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 195, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 29, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 41, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 53, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 57, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 65, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 69, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 73, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 77, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 81, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 199, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 89, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 93, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 101, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 105, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 109, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 117, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 121, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 125, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 129, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 133, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 137, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 141, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 145, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 149, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 161, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 165, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 181, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 185, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 189, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 197, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 209, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 213, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 217, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 221, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 203, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 233, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 237, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 241, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 245, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 207, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 29, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 211, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 41, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 53, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 215, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 225, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 187, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 245, byte_start_hi: 32, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 191, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 195, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 29, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 219, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 81, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 223, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 227, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 231, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 197, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 221, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 207, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 53, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 215, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 235, byte_start_hi: 34, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 241, byte_start_hi: 34, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 247, byte_start_hi: 34, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 253, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 29, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 37, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 41, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 53, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 57, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 61, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 65, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 69, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 73, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 77, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 81, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 227, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 89, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 93, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 101, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 253, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 29, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 37, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 41, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 53, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 57, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 61, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 65, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 69, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 73, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 77, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 81, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 227, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 89, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 93, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 101, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 77, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 81, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 227, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 223, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 231, byte_start_hi: 34, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 113, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 69, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 73, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 77, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 77, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 81, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 35, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 113, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 117, byte_start_hi: 33, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 105, byte_start_hi: 35, byte_len: 4 }),
    DisallowedIdna2008,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 109, byte_start_hi: 35, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 115, byte_start_hi: 35, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 121, byte_start_hi: 35, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 127, byte_start_hi: 35, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 133, byte_start_hi: 35, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 139, byte_start_hi: 35, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 145, byte_start_hi: 35, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 151, byte_start_hi: 35, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 157, byte_start_hi: 35, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 163, byte_start_hi: 35, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 35, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 175, byte_start_hi: 35, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 181, byte_start_hi: 35, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 187, byte_start_hi: 35, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 35, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 199, byte_start_hi: 35, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 35, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 211, byte_start_hi: 35, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 217, byte_start_hi: 35, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 223, byte_start_hi: 35, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 229, byte_start_hi: 35, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 235, byte_start_hi: 35, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 241, byte_start_hi: 35, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 247, byte_start_hi: 35, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 253, byte_start_hi: 35, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 27, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 39, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 51, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 57, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 63, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 69, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 75, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 81, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 87, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 93, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 99, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 105, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 111, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 117, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 123, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 129, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 135, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 141, byte_start_hi: 36, byte_len: 6 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 147, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 153, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 159, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 165, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 171, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 177, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 183, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 189, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 195, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 201, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 207, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 213, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 219, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 225, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 231, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 237, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 243, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 249, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 255, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 29, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 35, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 41, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 47, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 53, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 59, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 65, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 71, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 77, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 57, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 69, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 83, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 89, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 95, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 101, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 107, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 113, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 107, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 95, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 119, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 125, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 131, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 137, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 143, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 113, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 36, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 211, byte_start_hi: 35, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 149, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 155, byte_start_hi: 37, byte_len: 6 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 161, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 167, byte_start_hi: 37, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 173, byte_start_hi: 37, byte_len: 8 }),
    Mapped(StringTableSlice { byte_start_lo: 181, byte_start_hi: 37, byte_len: 8 }),
    Mapped(StringTableSlice { byte_start_lo: 189, byte_start_hi: 37, byte_len: 8 }),
    Mapped(StringTableSlice { byte_start_lo: 197, byte_start_hi: 37, byte_len: 8 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 37, byte_len: 8 }),
    Mapped(StringTableSlice { byte_start_lo: 213, byte_start_hi: 37, byte_len: 8 }),
    Mapped(StringTableSlice { byte_start_lo: 221, byte_start_hi: 37, byte_len: 8 }),
    Mapped(StringTableSlice { byte_start_lo: 229, byte_start_hi: 37, byte_len: 6 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 235, byte_start_hi: 37, byte_len: 33 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 38, byte_len: 15 }),
    Mapped(StringTableSlice { byte_start_lo: 27, byte_start_hi: 38, byte_len: 8 }),
    DisallowedIdna2008,
    Disallowed,
    Ignored,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 35, byte_start_hi: 38, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 36, byte_start_hi: 38, byte_len: 3 }),
    Disallowed,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 39, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 2, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 41, byte_start_hi: 38, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 42, byte_start_hi: 38, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 38, byte_len: 3 }),
    Disallowed,
    Valid,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 38, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 51, byte_start_hi: 38, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 55, byte_start_hi: 9, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 9, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 55, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 38, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 57, byte_start_hi: 38, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 38, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 63, byte_start_hi: 38, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 66, byte_start_hi: 38, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 69, byte_start_hi: 38, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 72, byte_start_hi: 38, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 238, byte_start_hi: 9, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 241, byte_start_hi: 9, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 75, byte_start_hi: 38, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 78, byte_start_hi: 38, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 81, byte_start_hi: 38, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 84, byte_start_hi: 38, byte_len: 3 }),
    DisallowedIdna2008,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 87, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 88, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 9, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 35, byte_start_hi: 38, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 36, byte_start_hi: 38, byte_len: 3 }),
    Disallowed,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 2, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 39, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 41, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 38, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 38, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 55, byte_start_hi: 9, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 9, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 55, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 38, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 57, byte_start_hi: 38, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 38, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 89, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 90, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 91, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 92, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 93, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 94, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 9, byte_len: 1 }),
    Disallowed,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 95, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 96, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 98, byte_start_hi: 38, byte_len: 1 }),
    Disallowed,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 99, byte_start_hi: 38, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 102, byte_start_hi: 38, byte_len: 4 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 106, byte_start_hi: 38, byte_len: 3 }),
    Valid,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 109, byte_start_hi: 38, byte_len: 3 }),
    Disallowed,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 112, byte_start_hi: 38, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 115, byte_start_hi: 38, byte_len: 4 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 119, byte_start_hi: 38, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 122, byte_start_hi: 38, byte_len: 4 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 126, byte_start_hi: 38, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 129, byte_start_hi: 38, byte_len: 4 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 133, byte_start_hi: 38, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 136, byte_start_hi: 38, byte_len: 4 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 140, byte_start_hi: 38, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 143, byte_start_hi: 38, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 147, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 149, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 151, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 153, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 155, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 157, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 159, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 161, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 163, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 165, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 167, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 171, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 173, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 175, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 177, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 179, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 181, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 183, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 185, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 187, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 189, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 191, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 195, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 197, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 199, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 201, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 203, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 207, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 209, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 211, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 213, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 181, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 215, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 217, byte_start_hi: 38, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 221, byte_start_hi: 38, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 225, byte_start_hi: 38, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 229, byte_start_hi: 38, byte_len: 4 }),
    Disallowed,
    Ignored,
    Disallowed,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 233, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 89, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 96, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 90, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 234, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 55, byte_start_hi: 9, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 9, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 91, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 9, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 35, byte_start_hi: 38, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 92, byte_start_hi: 38, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 140, byte_start_hi: 14, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 235, byte_start_hi: 38, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 47, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 9, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 39, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 2, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 93, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 9, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 94, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 41, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 98, byte_start_hi: 38, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 87, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 95, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 88, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 236, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 212, byte_start_hi: 8, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 55, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 237, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 38, byte_len: 1 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 238, byte_start_hi: 38, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 239, byte_start_hi: 38, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 242, byte_start_hi: 38, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 140, byte_start_hi: 14, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 75, byte_start_hi: 38, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 78, byte_start_hi: 38, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 36, byte_start_hi: 38, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 245, byte_start_hi: 38, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 220, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 248, byte_start_hi: 38, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 251, byte_start_hi: 38, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 254, byte_start_hi: 38, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 39, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 39, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 39, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 39, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 39, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 39, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 39, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 82, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 88, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 91, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 94, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 100, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 103, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 106, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 109, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 112, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 115, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 118, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 121, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 124, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 127, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 130, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 133, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 136, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 139, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 142, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 145, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 148, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 151, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 154, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 157, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 160, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 163, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 166, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 172, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 175, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 178, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 181, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 184, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 187, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 190, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 196, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 199, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 202, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 208, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 211, byte_start_hi: 18, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 39, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 39, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 39, byte_len: 3 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 170, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 173, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 176, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 179, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 182, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 185, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 188, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 191, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 194, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 197, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 200, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 203, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 206, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 209, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 212, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 215, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 218, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 221, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 224, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 227, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 230, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 233, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 236, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 239, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 242, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 245, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 248, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 251, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 254, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 15, byte_len: 3 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 15, byte_len: 3 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 31, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 37, byte_start_hi: 15, byte_len: 3 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 55, byte_start_hi: 15, byte_len: 3 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 61, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 15, byte_len: 3 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 31, byte_start_hi: 39, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 39, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 35, byte_start_hi: 39, byte_len: 2 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 30, byte_start_hi: 0, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 37, byte_start_hi: 39, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 39, byte_start_hi: 39, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 41, byte_start_hi: 39, byte_len: 3 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 39, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 47, byte_start_hi: 39, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 39, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 53, byte_start_hi: 39, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 39, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 59, byte_start_hi: 39, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 62, byte_start_hi: 39, byte_len: 3 }),
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 65, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 69, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 73, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 77, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 81, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 89, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 93, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 101, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 105, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 109, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 113, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 117, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 121, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 125, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 129, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 133, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 137, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 141, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 145, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 149, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 153, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 157, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 161, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 165, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 173, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 177, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 181, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 185, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 189, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 197, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 201, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 209, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 213, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 217, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 221, byte_start_hi: 39, byte_len: 4 }),
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 225, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 229, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 233, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 237, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 241, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 245, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 249, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 253, byte_start_hi: 39, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 29, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 37, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 41, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 53, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 57, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 61, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 65, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 69, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 73, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 77, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 81, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 89, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 93, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 101, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 105, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 109, byte_start_hi: 40, byte_len: 4 }),
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 113, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 117, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 121, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 125, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 129, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 133, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 137, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 141, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 145, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 149, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 153, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 157, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 161, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 165, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 173, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 177, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 181, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 185, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 189, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 197, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 201, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 209, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 213, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 217, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 221, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 225, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 229, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 233, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 237, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 241, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 245, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 249, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 253, byte_start_hi: 40, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 29, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 37, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 41, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 53, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 57, byte_start_hi: 41, byte_len: 4 }),
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 61, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 65, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 69, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 73, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 77, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 81, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 89, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 93, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 101, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 105, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 109, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 113, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 117, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 121, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 125, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 129, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 133, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 137, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 141, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 145, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 149, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 153, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 157, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 161, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 165, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 173, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 177, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 181, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 185, byte_start_hi: 41, byte_len: 4 }),
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 189, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 197, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 201, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 209, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 213, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 217, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 221, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 225, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 229, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 233, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 237, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 241, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 245, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 249, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 253, byte_start_hi: 41, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 42, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 42, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 42, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 42, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 42, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 42, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 42, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 29, byte_start_hi: 42, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 42, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 37, byte_start_hi: 42, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 41, byte_start_hi: 42, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 42, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 42, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 53, byte_start_hi: 42, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 57, byte_start_hi: 42, byte_len: 4 }),
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Ignored,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 61, byte_start_hi: 42, byte_len: 8 }),
    Mapped(StringTableSlice { byte_start_lo: 69, byte_start_hi: 42, byte_len: 8 }),
    Mapped(StringTableSlice { byte_start_lo: 77, byte_start_hi: 42, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 89, byte_start_hi: 42, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 101, byte_start_hi: 42, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 113, byte_start_hi: 42, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 125, byte_start_hi: 42, byte_len: 12 }),
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 137, byte_start_hi: 42, byte_len: 8 }),
    Mapped(StringTableSlice { byte_start_lo: 145, byte_start_hi: 42, byte_len: 8 }),
    Mapped(StringTableSlice { byte_start_lo: 153, byte_start_hi: 42, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 165, byte_start_hi: 42, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 177, byte_start_hi: 42, byte_len: 12 }),
    Mapped(StringTableSlice { byte_start_lo: 189, byte_start_hi: 42, byte_len: 12 }),
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 201, byte_start_hi: 42, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 203, byte_start_hi: 42, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 26, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 30, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 36, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 243, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 42, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 62, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 66, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 42, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 26, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 30, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 36, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 243, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 42, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 62, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 66, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 208, byte_start_hi: 42, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 26, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 30, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 36, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 243, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 42, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 62, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 66, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 42, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 26, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 30, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 36, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 243, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 42, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 62, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 66, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 208, byte_start_hi: 42, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 26, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 30, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 36, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 243, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 42, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 62, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 66, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 42, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 26, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 30, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 36, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 243, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 42, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 62, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 66, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 208, byte_start_hi: 42, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 26, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 30, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 36, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 243, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 42, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 62, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 66, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 42, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 26, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 30, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 36, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 243, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 42, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 62, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 66, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 208, byte_start_hi: 42, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 26, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 30, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 36, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 243, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 42, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 62, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 66, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 42, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 26, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 30, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 36, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 243, byte_start_hi: 1, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 42, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 62, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 66, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 208, byte_start_hi: 42, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 52, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 2, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 78, byte_start_hi: 2, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 47, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 47, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 47, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 47, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 47, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 9, byte_len: 1 }),
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Valid,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 211, byte_start_hi: 42, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 215, byte_start_hi: 42, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 219, byte_start_hi: 42, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 223, byte_start_hi: 42, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 227, byte_start_hi: 42, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 231, byte_start_hi: 42, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 235, byte_start_hi: 42, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 239, byte_start_hi: 42, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 243, byte_start_hi: 42, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 247, byte_start_hi: 42, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 251, byte_start_hi: 42, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 255, byte_start_hi: 42, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 43, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 43, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 43, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 43, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 43, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 43, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 27, byte_start_hi: 43, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 31, byte_start_hi: 43, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 35, byte_start_hi: 43, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 39, byte_start_hi: 43, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 43, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 47, byte_start_hi: 43, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 51, byte_start_hi: 43, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 55, byte_start_hi: 43, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 59, byte_start_hi: 43, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 63, byte_start_hi: 43, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 67, byte_start_hi: 43, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 71, byte_start_hi: 43, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 75, byte_start_hi: 43, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 79, byte_start_hi: 43, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 83, byte_start_hi: 43, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 87, byte_start_hi: 43, byte_len: 4 }),
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 159, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 161, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 175, byte_start_hi: 38, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 213, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 181, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 171, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 191, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 215, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 203, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 207, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 209, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 183, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 195, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 199, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 187, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 201, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 179, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 185, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 165, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 167, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 173, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 177, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 189, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 197, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 91, byte_start_hi: 43, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 151, byte_start_hi: 32, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 93, byte_start_hi: 43, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 95, byte_start_hi: 43, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 161, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 38, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 211, byte_start_hi: 38, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 171, byte_start_hi: 38, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 215, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 203, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 207, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 209, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 183, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 195, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 199, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 187, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 201, byte_start_hi: 38, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 185, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 165, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 167, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 173, byte_start_hi: 38, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 189, byte_start_hi: 38, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 197, byte_start_hi: 38, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 38, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 171, byte_start_hi: 38, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 215, byte_start_hi: 38, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 38, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 209, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 183, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 195, byte_start_hi: 38, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 187, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 201, byte_start_hi: 38, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 185, byte_start_hi: 38, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 173, byte_start_hi: 38, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 189, byte_start_hi: 38, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 197, byte_start_hi: 38, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 151, byte_start_hi: 32, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 95, byte_start_hi: 43, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 161, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 38, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 211, byte_start_hi: 38, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 171, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 191, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 215, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 203, byte_start_hi: 38, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 207, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 209, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 183, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 195, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 199, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 187, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 201, byte_start_hi: 38, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 185, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 165, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 167, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 173, byte_start_hi: 38, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 189, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 197, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 91, byte_start_hi: 43, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 93, byte_start_hi: 43, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 159, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 161, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 175, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 211, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 213, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 181, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 171, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 191, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 215, byte_start_hi: 38, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 207, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 209, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 183, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 195, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 199, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 187, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 201, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 179, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 185, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 165, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 167, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 173, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 177, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 189, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 197, byte_start_hi: 38, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 161, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 175, byte_start_hi: 38, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 213, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 181, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 171, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 191, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 215, byte_start_hi: 38, byte_len: 2 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 207, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 209, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 183, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 195, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 199, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 187, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 201, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 179, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 185, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 165, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 167, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 173, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 177, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 189, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 38, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 197, byte_start_hi: 38, byte_len: 2 }),
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 43, byte_len: 2 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 99, byte_start_hi: 43, byte_len: 2 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 101, byte_start_hi: 43, byte_len: 2 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 103, byte_start_hi: 43, byte_len: 2 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 105, byte_start_hi: 43, byte_len: 2 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 107, byte_start_hi: 43, byte_len: 2 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 109, byte_start_hi: 43, byte_len: 2 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 111, byte_start_hi: 43, byte_len: 2 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 113, byte_start_hi: 43, byte_len: 2 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 115, byte_start_hi: 43, byte_len: 2 }),
    DisallowedIdna2008,
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 81, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 84, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 87, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 90, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 93, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 96, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 99, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 102, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 105, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 108, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 111, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 114, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 117, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 120, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 123, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 126, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 129, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 132, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 135, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 138, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 141, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 144, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 147, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 150, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 153, byte_start_hi: 10, byte_len: 3 }),
    DisallowedStd3Mapped(StringTableSlice { byte_start_lo: 156, byte_start_hi: 10, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 117, byte_start_hi: 43, byte_len: 7 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 124, byte_start_hi: 43, byte_len: 2 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 2, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 8, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 11, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 14, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 126, byte_start_hi: 43, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 180, byte_start_hi: 23, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 128, byte_start_hi: 43, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 119, byte_start_hi: 0, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 130, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 133, byte_start_hi: 43, byte_len: 2 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 135, byte_start_hi: 43, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 137, byte_start_hi: 43, byte_len: 2 }),
    Mapped(StringTableSlice { byte_start_lo: 139, byte_start_hi: 43, byte_len: 2 }),
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 141, byte_start_hi: 43, byte_len: 2 }),
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Mapped(StringTableSlice { byte_start_lo: 143, byte_start_hi: 43, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 149, byte_start_hi: 43, byte_len: 6 }),
    Mapped(StringTableSlice { byte_start_lo: 112, byte_start_hi: 18, byte_len: 3 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 199, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 155, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 158, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 161, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 164, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 167, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 217, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 170, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 173, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 176, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 246, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 179, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 182, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 185, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 188, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 191, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 194, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 51, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 197, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 200, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 203, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 206, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 209, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 212, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 193, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 215, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 217, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 202, byte_start_hi: 15, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 220, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 218, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 219, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 221, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 224, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 227, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 230, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 233, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 166, byte_start_hi: 17, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 229, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 236, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 239, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 242, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 245, byte_start_hi: 43, byte_len: 3 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 248, byte_start_hi: 43, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 44, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 44, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 44, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 44, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 37, byte_start_hi: 44, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 44, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 55, byte_start_hi: 44, byte_len: 9 }),
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 44, byte_len: 9 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 73, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 76, byte_start_hi: 44, byte_len: 3 }),
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    DisallowedIdna2008,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 0, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 47, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 9, byte_len: 1 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 9, byte_len: 1 }),
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Valid,
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 79, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 82, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 88, byte_start_hi: 44, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 92, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 95, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 98, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 101, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 104, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 107, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 110, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 113, byte_start_hi: 44, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 117, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 120, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 123, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 126, byte_start_hi: 44, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 130, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 133, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 185, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 136, byte_start_hi: 44, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 140, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 143, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 146, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 149, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 185, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 152, byte_start_hi: 44, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 156, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 159, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 162, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 165, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 239, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 168, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 171, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 200, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 203, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 174, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 177, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 244, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 180, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 183, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 186, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 189, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 192, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 195, byte_start_hi: 44, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 199, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 202, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 205, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 208, byte_start_hi: 44, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 212, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 215, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 218, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 221, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 224, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 227, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 230, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 233, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 236, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 239, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 242, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 245, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 248, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 209, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 251, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 254, byte_start_hi: 44, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 170, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 31, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 37, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 45, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 47, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 164, byte_start_hi: 43, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 53, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 56, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 59, byte_start_hi: 45, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 63, byte_start_hi: 45, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 67, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 70, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 73, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 76, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 79, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 82, byte_start_hi: 45, byte_len: 3 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 88, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 91, byte_start_hi: 45, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 95, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 98, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 232, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 101, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 104, byte_start_hi: 45, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 108, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 111, byte_start_hi: 45, byte_len: 3 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 136, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 114, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 117, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 142, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 120, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 123, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 126, byte_start_hi: 45, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 130, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 133, byte_start_hi: 45, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 137, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 140, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 143, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 146, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 149, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 152, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 155, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 158, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 161, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 164, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 167, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 170, byte_start_hi: 45, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 174, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 177, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 180, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 183, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 76, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 186, byte_start_hi: 45, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 172, byte_start_hi: 12, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 190, byte_start_hi: 45, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 194, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 197, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 200, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 203, byte_start_hi: 45, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 207, byte_start_hi: 45, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 211, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 214, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 217, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 220, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 223, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 226, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 229, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 232, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 235, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 238, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 49, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 241, byte_start_hi: 45, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 245, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 248, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 251, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 245, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 251, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 254, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 55, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 251, byte_start_hi: 26, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 31, byte_start_hi: 46, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 35, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 38, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 41, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 44, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 47, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 46, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 57, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 63, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 66, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 69, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 72, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 75, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 78, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 61, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 81, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 84, byte_start_hi: 46, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 88, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 91, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 94, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 67, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 100, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 103, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 106, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 109, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 112, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 115, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 118, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 121, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 79, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 124, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 127, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 130, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 133, byte_start_hi: 46, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 137, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 140, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 143, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 146, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 70, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 149, byte_start_hi: 46, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 153, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 156, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 159, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 142, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 162, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 165, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 168, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 171, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 174, byte_start_hi: 46, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 178, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 181, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 184, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 187, byte_start_hi: 46, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 191, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 194, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 197, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 200, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 27, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 203, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 206, byte_start_hi: 46, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 210, byte_start_hi: 46, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 214, byte_start_hi: 46, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 218, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 221, byte_start_hi: 46, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 225, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 228, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 231, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 234, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 237, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 73, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 240, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 243, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 246, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 249, byte_start_hi: 46, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 253, byte_start_hi: 46, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 47, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 16, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 19, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 22, byte_start_hi: 47, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 26, byte_start_hi: 47, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 30, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 33, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 25, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 36, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 39, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 42, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 45, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 48, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 51, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 47, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 61, byte_start_hi: 47, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 65, byte_start_hi: 47, byte_len: 3 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 68, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 31, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 71, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 74, byte_start_hi: 47, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 78, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 81, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 84, byte_start_hi: 47, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 88, byte_start_hi: 47, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 92, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 95, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 98, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 101, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 104, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 107, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 110, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 37, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 113, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 116, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 119, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 122, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 125, byte_start_hi: 47, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 129, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 132, byte_start_hi: 47, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 241, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 136, byte_start_hi: 47, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 140, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 143, byte_start_hi: 47, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 147, byte_start_hi: 47, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 151, byte_start_hi: 47, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 155, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 158, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 55, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 161, byte_start_hi: 47, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 165, byte_start_hi: 47, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 169, byte_start_hi: 47, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 173, byte_start_hi: 47, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 177, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 180, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 58, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 148, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 183, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 186, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 189, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 192, byte_start_hi: 47, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 196, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 130, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 199, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 202, byte_start_hi: 47, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 103, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 206, byte_start_hi: 47, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 210, byte_start_hi: 47, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 230, byte_start_hi: 29, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 214, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 217, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 112, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 220, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 223, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 226, byte_start_hi: 47, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 230, byte_start_hi: 47, byte_len: 4 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 234, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 237, byte_start_hi: 47, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 241, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 244, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 247, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 250, byte_start_hi: 47, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 254, byte_start_hi: 47, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 4, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 7, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 10, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 13, byte_start_hi: 48, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 17, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 20, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 23, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 26, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 29, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 32, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 35, byte_start_hi: 48, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 39, byte_start_hi: 48, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 46, byte_start_hi: 48, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 50, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 53, byte_start_hi: 48, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 57, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 130, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 63, byte_start_hi: 48, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 67, byte_start_hi: 48, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 71, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 74, byte_start_hi: 48, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 78, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 81, byte_start_hi: 48, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 88, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 91, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 94, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 100, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 103, byte_start_hi: 48, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 107, byte_start_hi: 48, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 111, byte_start_hi: 48, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 115, byte_start_hi: 48, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 194, byte_start_hi: 45, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 119, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 122, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 125, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 128, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 131, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 134, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 137, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 140, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 143, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 146, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 149, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 152, byte_start_hi: 48, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 36, byte_start_hi: 28, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 156, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 159, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 162, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 165, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 168, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 171, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 139, byte_start_hi: 30, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 174, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 177, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 180, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 183, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 186, byte_start_hi: 48, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 190, byte_start_hi: 48, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 194, byte_start_hi: 48, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 198, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 201, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 204, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 207, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 210, byte_start_hi: 48, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 214, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 217, byte_start_hi: 48, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 221, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 224, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 227, byte_start_hi: 48, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 231, byte_start_hi: 48, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 235, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 238, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 115, byte_start_hi: 27, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 241, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 244, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 247, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 250, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 253, byte_start_hi: 48, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 0, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 85, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 3, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 6, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 49, byte_len: 3 }),
    Disallowed,
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 186, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 49, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 28, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 31, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 34, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 37, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 40, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 43, byte_start_hi: 49, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 47, byte_start_hi: 49, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 51, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 54, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 57, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 100, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 103, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 207, byte_start_hi: 13, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 60, byte_start_hi: 49, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 64, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 67, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 70, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 73, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 76, byte_start_hi: 49, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 80, byte_start_hi: 49, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 84, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 87, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 90, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 93, byte_start_hi: 49, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 97, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 106, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 100, byte_start_hi: 49, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 104, byte_start_hi: 49, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 108, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 111, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 114, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 117, byte_start_hi: 49, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 121, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 124, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 127, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 130, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 133, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 136, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 139, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 142, byte_start_hi: 49, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 146, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 149, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 152, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 155, byte_start_hi: 49, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 159, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 162, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 165, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 168, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 171, byte_start_hi: 49, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 175, byte_start_hi: 49, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 179, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 182, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 185, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 188, byte_start_hi: 49, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 192, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 195, byte_start_hi: 49, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 124, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 199, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 202, byte_start_hi: 49, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 206, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 209, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 212, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 215, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 218, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 221, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 224, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 227, byte_start_hi: 49, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 127, byte_start_hi: 31, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 231, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 234, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 237, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 240, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 243, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 246, byte_start_hi: 49, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 250, byte_start_hi: 49, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 253, byte_start_hi: 49, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 1, byte_start_hi: 50, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 5, byte_start_hi: 50, byte_len: 4 }),
    Mapped(StringTableSlice { byte_start_lo: 95, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 9, byte_start_hi: 50, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 107, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 12, byte_start_hi: 50, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 15, byte_start_hi: 50, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 18, byte_start_hi: 50, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 21, byte_start_hi: 50, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 122, byte_start_hi: 14, byte_len: 3 }),
    Mapped(StringTableSlice { byte_start_lo: 24, byte_start_hi: 50, byte_len: 4 }),
    Disallowed,
    Valid,
    Disallowed,
    Ignored,
    Disallowed,
];

static STRING_TABLE: &str = "\u{61}\
  \u{62}\
  \u{63}\
  \u{64}\
  \u{65}\
  \u{66}\
  \u{67}\
  \u{68}\
  \u{69}\
  \u{6a}\
  \u{6b}\
  \u{6c}\
  \u{6d}\
  \u{6e}\
  \u{6f}\
  \u{70}\
  \u{71}\
  \u{72}\
  \u{73}\
  \u{74}\
  \u{75}\
  \u{76}\
  \u{77}\
  \u{78}\
  \u{79}\
  \u{7a}\
  \u{20}\
  \u{20}\
  \u{308}\
  \u{20}\
  \u{304}\
  \u{32}\
  \u{33}\
  \u{20}\
  \u{301}\
  \u{3bc}\
  \u{20}\
  \u{327}\
  \u{31}\
  \u{31}\
  \u{2044}\
  \u{34}\
  \u{31}\
  \u{2044}\
  \u{32}\
  \u{33}\
  \u{2044}\
  \u{34}\
  \u{e0}\
  \u{e1}\
  \u{e2}\
  \u{e3}\
  \u{e4}\
  \u{e5}\
  \u{e6}\
  \u{e7}\
  \u{e8}\
  \u{e9}\
  \u{ea}\
  \u{eb}\
  \u{ec}\
  \u{ed}\
  \u{ee}\
  \u{ef}\
  \u{f0}\
  \u{f1}\
  \u{f2}\
  \u{f3}\
  \u{f4}\
  \u{f5}\
  \u{f6}\
  \u{f8}\
  \u{f9}\
  \u{fa}\
  \u{fb}\
  \u{fc}\
  \u{fd}\
  \u{fe}\
  \u{73}\
  \u{73}\
  \u{101}\
  \u{103}\
  \u{105}\
  \u{107}\
  \u{109}\
  \u{10b}\
  \u{10d}\
  \u{10f}\
  \u{111}\
  \u{113}\
  \u{115}\
  \u{117}\
  \u{119}\
  \u{11b}\
  \u{11d}\
  \u{11f}\
  \u{121}\
  \u{123}\
  \u{125}\
  \u{127}\
  \u{129}\
  \u{12b}\
  \u{12d}\
  \u{12f}\
  \u{69}\
  \u{307}\
  \u{69}\
  \u{6a}\
  \u{135}\
  \u{137}\
  \u{13a}\
  \u{13c}\
  \u{13e}\
  \u{6c}\
  \u{b7}\
  \u{142}\
  \u{144}\
  \u{146}\
  \u{148}\
  \u{2bc}\
  \u{6e}\
  \u{14b}\
  \u{14d}\
  \u{14f}\
  \u{151}\
  \u{153}\
  \u{155}\
  \u{157}\
  \u{159}\
  \u{15b}\
  \u{15d}\
  \u{15f}\
  \u{161}\
  \u{163}\
  \u{165}\
  \u{167}\
  \u{169}\
  \u{16b}\
  \u{16d}\
  \u{16f}\
  \u{171}\
  \u{173}\
  \u{175}\
  \u{177}\
  \u{ff}\
  \u{17a}\
  \u{17c}\
  \u{17e}\
  \u{253}\
  \u{183}\
  \u{185}\
  \u{254}\
  \u{188}\
  \u{256}\
  \u{257}\
  \u{18c}\
  \u{1dd}\
  \u{259}\
  \u{25b}\
  \u{192}\
  \u{260}\
  \u{263}\
  \u{269}\
  \u{268}\
  \u{199}\
  \u{26f}\
  \u{272}\
  \u{275}\
  \u{1a1}\
  \u{1a3}\
  \u{1a5}\
  \u{280}\
  \u{1a8}\
  \u{283}\
  \u{1ad}\
  \u{288}\
  \u{1b0}\
  \u{28a}\
  \u{28b}\
  \u{1b4}\
  \u{1b6}\
  \u{292}\
  \u{1b9}\
  \u{1bd}\
  \u{64}\
  \u{17e}\
  \u{6c}\
  \u{6a}\
  \u{6e}\
  \u{6a}\
  \u{1ce}\
  \u{1d0}\
  \u{1d2}\
  \u{1d4}\
  \u{1d6}\
  \u{1d8}\
  \u{1da}\
  \u{1dc}\
  \u{1df}\
  \u{1e1}\
  \u{1e3}\
  \u{1e5}\
  \u{1e7}\
  \u{1e9}\
  \u{1eb}\
  \u{1ed}\
  \u{1ef}\
  \u{64}\
  \u{7a}\
  \u{1f5}\
  \u{195}\
  \u{1bf}\
  \u{1f9}\
  \u{1fb}\
  \u{1fd}\
  \u{1ff}\
  \u{201}\
  \u{203}\
  \u{205}\
  \u{207}\
  \u{209}\
  \u{20b}\
  \u{20d}\
  \u{20f}\
  \u{211}\
  \u{213}\
  \u{215}\
  \u{217}\
  \u{219}\
  \u{21b}\
  \u{21d}\
  \u{21f}\
  \u{19e}\
  \u{223}\
  \u{225}\
  \u{227}\
  \u{229}\
  \u{22b}\
  \u{22d}\
  \u{22f}\
  \u{231}\
  \u{233}\
  \u{2c65}\
  \u{23c}\
  \u{19a}\
  \u{2c66}\
  \u{242}\
  \u{180}\
  \u{289}\
  \u{28c}\
  \u{247}\
  \u{249}\
  \u{24b}\
  \u{24d}\
  \u{24f}\
  \u{266}\
  \u{279}\
  \u{27b}\
  \u{281}\
  \u{20}\
  \u{306}\
  \u{20}\
  \u{307}\
  \u{20}\
  \u{30a}\
  \u{20}\
  \u{328}\
  \u{20}\
  \u{303}\
  \u{20}\
  \u{30b}\
  \u{295}\
  \u{300}\
  \u{301}\
  \u{313}\
  \u{308}\
  \u{301}\
  \u{3b9}\
  \u{371}\
  \u{373}\
  \u{2b9}\
  \u{377}\
  \u{20}\
  \u{3b9}\
  \u{3b}\
  \u{3f3}\
  \u{20}\
  \u{308}\
  \u{301}\
  \u{3ac}\
  \u{b7}\
  \u{3ad}\
  \u{3ae}\
  \u{3af}\
  \u{3cc}\
  \u{3cd}\
  \u{3ce}\
  \u{3b1}\
  \u{3b2}\
  \u{3b3}\
  \u{3b4}\
  \u{3b5}\
  \u{3b6}\
  \u{3b7}\
  \u{3b8}\
  \u{3ba}\
  \u{3bb}\
  \u{3bd}\
  \u{3be}\
  \u{3bf}\
  \u{3c0}\
  \u{3c1}\
  \u{3c3}\
  \u{3c4}\
  \u{3c5}\
  \u{3c6}\
  \u{3c7}\
  \u{3c8}\
  \u{3c9}\
  \u{3ca}\
  \u{3cb}\
  \u{3d7}\
  \u{3d9}\
  \u{3db}\
  \u{3dd}\
  \u{3df}\
  \u{3e1}\
  \u{3e3}\
  \u{3e5}\
  \u{3e7}\
  \u{3e9}\
  \u{3eb}\
  \u{3ed}\
  \u{3ef}\
  \u{3f8}\
  \u{3fb}\
  \u{37b}\
  \u{37c}\
  \u{37d}\
  \u{450}\
  \u{451}\
  \u{452}\
  \u{453}\
  \u{454}\
  \u{455}\
  \u{456}\
  \u{457}\
  \u{458}\
  \u{459}\
  \u{45a}\
  \u{45b}\
  \u{45c}\
  \u{45d}\
  \u{45e}\
  \u{45f}\
  \u{430}\
  \u{431}\
  \u{432}\
  \u{433}\
  \u{434}\
  \u{435}\
  \u{436}\
  \u{437}\
  \u{438}\
  \u{439}\
  \u{43a}\
  \u{43b}\
  \u{43c}\
  \u{43d}\
  \u{43e}\
  \u{43f}\
  \u{440}\
  \u{441}\
  \u{442}\
  \u{443}\
  \u{444}\
  \u{445}\
  \u{446}\
  \u{447}\
  \u{448}\
  \u{449}\
  \u{44a}\
  \u{44b}\
  \u{44c}\
  \u{44d}\
  \u{44e}\
  \u{44f}\
  \u{461}\
  \u{463}\
  \u{465}\
  \u{467}\
  \u{469}\
  \u{46b}\
  \u{46d}\
  \u{46f}\
  \u{471}\
  \u{473}\
  \u{475}\
  \u{477}\
  \u{479}\
  \u{47b}\
  \u{47d}\
  \u{47f}\
  \u{481}\
  \u{48b}\
  \u{48d}\
  \u{48f}\
  \u{491}\
  \u{493}\
  \u{495}\
  \u{497}\
  \u{499}\
  \u{49b}\
  \u{49d}\
  \u{49f}\
  \u{4a1}\
  \u{4a3}\
  \u{4a5}\
  \u{4a7}\
  \u{4a9}\
  \u{4ab}\
  \u{4ad}\
  \u{4af}\
  \u{4b1}\
  \u{4b3}\
  \u{4b5}\
  \u{4b7}\
  \u{4b9}\
  \u{4bb}\
  \u{4bd}\
  \u{4bf}\
  \u{4c2}\
  \u{4c4}\
  \u{4c6}\
  \u{4c8}\
  \u{4ca}\
  \u{4cc}\
  \u{4ce}\
  \u{4d1}\
  \u{4d3}\
  \u{4d5}\
  \u{4d7}\
  \u{4d9}\
  \u{4db}\
  \u{4dd}\
  \u{4df}\
  \u{4e1}\
  \u{4e3}\
  \u{4e5}\
  \u{4e7}\
  \u{4e9}\
  \u{4eb}\
  \u{4ed}\
  \u{4ef}\
  \u{4f1}\
  \u{4f3}\
  \u{4f5}\
  \u{4f7}\
  \u{4f9}\
  \u{4fb}\
  \u{4fd}\
  \u{4ff}\
  \u{501}\
  \u{503}\
  \u{505}\
  \u{507}\
  \u{509}\
  \u{50b}\
  \u{50d}\
  \u{50f}\
  \u{511}\
  \u{513}\
  \u{515}\
  \u{517}\
  \u{519}\
  \u{51b}\
  \u{51d}\
  \u{51f}\
  \u{521}\
  \u{523}\
  \u{525}\
  \u{527}\
  \u{529}\
  \u{52b}\
  \u{52d}\
  \u{52f}\
  \u{561}\
  \u{562}\
  \u{563}\
  \u{564}\
  \u{565}\
  \u{566}\
  \u{567}\
  \u{568}\
  \u{569}\
  \u{56a}\
  \u{56b}\
  \u{56c}\
  \u{56d}\
  \u{56e}\
  \u{56f}\
  \u{570}\
  \u{571}\
  \u{572}\
  \u{573}\
  \u{574}\
  \u{575}\
  \u{576}\
  \u{577}\
  \u{578}\
  \u{579}\
  \u{57a}\
  \u{57b}\
  \u{57c}\
  \u{57d}\
  \u{57e}\
  \u{57f}\
  \u{580}\
  \u{581}\
  \u{582}\
  \u{583}\
  \u{584}\
  \u{585}\
  \u{586}\
  \u{565}\
  \u{582}\
  \u{627}\
  \u{674}\
  \u{648}\
  \u{674}\
  \u{6c7}\
  \u{674}\
  \u{64a}\
  \u{674}\
  \u{915}\
  \u{93c}\
  \u{916}\
  \u{93c}\
  \u{917}\
  \u{93c}\
  \u{91c}\
  \u{93c}\
  \u{921}\
  \u{93c}\
  \u{922}\
  \u{93c}\
  \u{92b}\
  \u{93c}\
  \u{92f}\
  \u{93c}\
  \u{9a1}\
  \u{9bc}\
  \u{9a2}\
  \u{9bc}\
  \u{9af}\
  \u{9bc}\
  \u{a32}\
  \u{a3c}\
  \u{a38}\
  \u{a3c}\
  \u{a16}\
  \u{a3c}\
  \u{a17}\
  \u{a3c}\
  \u{a1c}\
  \u{a3c}\
  \u{a2b}\
  \u{a3c}\
  \u{b21}\
  \u{b3c}\
  \u{b22}\
  \u{b3c}\
  \u{e4d}\
  \u{e32}\
  \u{ecd}\
  \u{eb2}\
  \u{eab}\
  \u{e99}\
  \u{eab}\
  \u{ea1}\
  \u{f0b}\
  \u{f42}\
  \u{fb7}\
  \u{f4c}\
  \u{fb7}\
  \u{f51}\
  \u{fb7}\
  \u{f56}\
  \u{fb7}\
  \u{f5b}\
  \u{fb7}\
  \u{f40}\
  \u{fb5}\
  \u{f71}\
  \u{f72}\
  \u{f71}\
  \u{f74}\
  \u{fb2}\
  \u{f80}\
  \u{fb2}\
  \u{f71}\
  \u{f80}\
  \u{fb3}\
  \u{f80}\
  \u{fb3}\
  \u{f71}\
  \u{f80}\
  \u{f71}\
  \u{f80}\
  \u{f92}\
  \u{fb7}\
  \u{f9c}\
  \u{fb7}\
  \u{fa1}\
  \u{fb7}\
  \u{fa6}\
  \u{fb7}\
  \u{fab}\
  \u{fb7}\
  \u{f90}\
  \u{fb5}\
  \u{2d27}\
  \u{2d2d}\
  \u{10dc}\
  \u{13f0}\
  \u{13f1}\
  \u{13f2}\
  \u{13f3}\
  \u{13f4}\
  \u{13f5}\
  \u{a64b}\
  \u{10d0}\
  \u{10d1}\
  \u{10d2}\
  \u{10d3}\
  \u{10d4}\
  \u{10d5}\
  \u{10d6}\
  \u{10d7}\
  \u{10d8}\
  \u{10d9}\
  \u{10da}\
  \u{10db}\
  \u{10dd}\
  \u{10de}\
  \u{10df}\
  \u{10e0}\
  \u{10e1}\
  \u{10e2}\
  \u{10e3}\
  \u{10e4}\
  \u{10e5}\
  \u{10e6}\
  \u{10e7}\
  \u{10e8}\
  \u{10e9}\
  \u{10ea}\
  \u{10eb}\
  \u{10ec}\
  \u{10ed}\
  \u{10ee}\
  \u{10ef}\
  \u{10f0}\
  \u{10f1}\
  \u{10f2}\
  \u{10f3}\
  \u{10f4}\
  \u{10f5}\
  \u{10f6}\
  \u{10f7}\
  \u{10f8}\
  \u{10f9}\
  \u{10fa}\
  \u{10fd}\
  \u{10fe}\
  \u{10ff}\
  \u{250}\
  \u{251}\
  \u{1d02}\
  \u{25c}\
  \u{1d16}\
  \u{1d17}\
  \u{1d1d}\
  \u{1d25}\
  \u{252}\
  \u{255}\
  \u{25f}\
  \u{261}\
  \u{265}\
  \u{26a}\
  \u{1d7b}\
  \u{29d}\
  \u{26d}\
  \u{1d85}\
  \u{29f}\
  \u{271}\
  \u{270}\
  \u{273}\
  \u{274}\
  \u{278}\
  \u{282}\
  \u{1ab}\
  \u{1d1c}\
  \u{290}\
  \u{291}\
  \u{1e01}\
  \u{1e03}\
  \u{1e05}\
  \u{1e07}\
  \u{1e09}\
  \u{1e0b}\
  \u{1e0d}\
  \u{1e0f}\
  \u{1e11}\
  \u{1e13}\
  \u{1e15}\
  \u{1e17}\
  \u{1e19}\
  \u{1e1b}\
  \u{1e1d}\
  \u{1e1f}\
  \u{1e21}\
  \u{1e23}\
  \u{1e25}\
  \u{1e27}\
  \u{1e29}\
  \u{1e2b}\
  \u{1e2d}\
  \u{1e2f}\
  \u{1e31}\
  \u{1e33}\
  \u{1e35}\
  \u{1e37}\
  \u{1e39}\
  \u{1e3b}\
  \u{1e3d}\
  \u{1e3f}\
  \u{1e41}\
  \u{1e43}\
  \u{1e45}\
  \u{1e47}\
  \u{1e49}\
  \u{1e4b}\
  \u{1e4d}\
  \u{1e4f}\
  \u{1e51}\
  \u{1e53}\
  \u{1e55}\
  \u{1e57}\
  \u{1e59}\
  \u{1e5b}\
  \u{1e5d}\
  \u{1e5f}\
  \u{1e61}\
  \u{1e63}\
  \u{1e65}\
  \u{1e67}\
  \u{1e69}\
  \u{1e6b}\
  \u{1e6d}\
  \u{1e6f}\
  \u{1e71}\
  \u{1e73}\
  \u{1e75}\
  \u{1e77}\
  \u{1e79}\
  \u{1e7b}\
  \u{1e7d}\
  \u{1e7f}\
  \u{1e81}\
  \u{1e83}\
  \u{1e85}\
  \u{1e87}\
  \u{1e89}\
  \u{1e8b}\
  \u{1e8d}\
  \u{1e8f}\
  \u{1e91}\
  \u{1e93}\
  \u{1e95}\
  \u{61}\
  \u{2be}\
  \u{1ea1}\
  \u{1ea3}\
  \u{1ea5}\
  \u{1ea7}\
  \u{1ea9}\
  \u{1eab}\
  \u{1ead}\
  \u{1eaf}\
  \u{1eb1}\
  \u{1eb3}\
  \u{1eb5}\
  \u{1eb7}\
  \u{1eb9}\
  \u{1ebb}\
  \u{1ebd}\
  \u{1ebf}\
  \u{1ec1}\
  \u{1ec3}\
  \u{1ec5}\
  \u{1ec7}\
  \u{1ec9}\
  \u{1ecb}\
  \u{1ecd}\
  \u{1ecf}\
  \u{1ed1}\
  \u{1ed3}\
  \u{1ed5}\
  \u{1ed7}\
  \u{1ed9}\
  \u{1edb}\
  \u{1edd}\
  \u{1edf}\
  \u{1ee1}\
  \u{1ee3}\
  \u{1ee5}\
  \u{1ee7}\
  \u{1ee9}\
  \u{1eeb}\
  \u{1eed}\
  \u{1eef}\
  \u{1ef1}\
  \u{1ef3}\
  \u{1ef5}\
  \u{1ef7}\
  \u{1ef9}\
  \u{1efb}\
  \u{1efd}\
  \u{1eff}\
  \u{1f00}\
  \u{1f01}\
  \u{1f02}\
  \u{1f03}\
  \u{1f04}\
  \u{1f05}\
  \u{1f06}\
  \u{1f07}\
  \u{1f10}\
  \u{1f11}\
  \u{1f12}\
  \u{1f13}\
  \u{1f14}\
  \u{1f15}\
  \u{1f20}\
  \u{1f21}\
  \u{1f22}\
  \u{1f23}\
  \u{1f24}\
  \u{1f25}\
  \u{1f26}\
  \u{1f27}\
  \u{1f30}\
  \u{1f31}\
  \u{1f32}\
  \u{1f33}\
  \u{1f34}\
  \u{1f35}\
  \u{1f36}\
  \u{1f37}\
  \u{1f40}\
  \u{1f41}\
  \u{1f42}\
  \u{1f43}\
  \u{1f44}\
  \u{1f45}\
  \u{1f51}\
  \u{1f53}\
  \u{1f55}\
  \u{1f57}\
  \u{1f60}\
  \u{1f61}\
  \u{1f62}\
  \u{1f63}\
  \u{1f64}\
  \u{1f65}\
  \u{1f66}\
  \u{1f67}\
  \u{1f00}\
  \u{3b9}\
  \u{1f01}\
  \u{3b9}\
  \u{1f02}\
  \u{3b9}\
  \u{1f03}\
  \u{3b9}\
  \u{1f04}\
  \u{3b9}\
  \u{1f05}\
  \u{3b9}\
  \u{1f06}\
  \u{3b9}\
  \u{1f07}\
  \u{3b9}\
  \u{1f20}\
  \u{3b9}\
  \u{1f21}\
  \u{3b9}\
  \u{1f22}\
  \u{3b9}\
  \u{1f23}\
  \u{3b9}\
  \u{1f24}\
  \u{3b9}\
  \u{1f25}\
  \u{3b9}\
  \u{1f26}\
  \u{3b9}\
  \u{1f27}\
  \u{3b9}\
  \u{1f60}\
  \u{3b9}\
  \u{1f61}\
  \u{3b9}\
  \u{1f62}\
  \u{3b9}\
  \u{1f63}\
  \u{3b9}\
  \u{1f64}\
  \u{3b9}\
  \u{1f65}\
  \u{3b9}\
  \u{1f66}\
  \u{3b9}\
  \u{1f67}\
  \u{3b9}\
  \u{1f70}\
  \u{3b9}\
  \u{3b1}\
  \u{3b9}\
  \u{3ac}\
  \u{3b9}\
  \u{1fb6}\
  \u{3b9}\
  \u{1fb0}\
  \u{1fb1}\
  \u{1f70}\
  \u{20}\
  \u{313}\
  \u{20}\
  \u{342}\
  \u{20}\
  \u{308}\
  \u{342}\
  \u{1f74}\
  \u{3b9}\
  \u{3b7}\
  \u{3b9}\
  \u{3ae}\
  \u{3b9}\
  \u{1fc6}\
  \u{3b9}\
  \u{1f72}\
  \u{1f74}\
  \u{20}\
  \u{313}\
  \u{300}\
  \u{20}\
  \u{313}\
  \u{301}\
  \u{20}\
  \u{313}\
  \u{342}\
  \u{390}\
  \u{1fd0}\
  \u{1fd1}\
  \u{1f76}\
  \u{20}\
  \u{314}\
  \u{300}\
  \u{20}\
  \u{314}\
  \u{301}\
  \u{20}\
  \u{314}\
  \u{342}\
  \u{3b0}\
  \u{1fe0}\
  \u{1fe1}\
  \u{1f7a}\
  \u{1fe5}\
  \u{20}\
  \u{308}\
  \u{300}\
  \u{60}\
  \u{1f7c}\
  \u{3b9}\
  \u{3c9}\
  \u{3b9}\
  \u{3ce}\
  \u{3b9}\
  \u{1ff6}\
  \u{3b9}\
  \u{1f78}\
  \u{1f7c}\
  \u{20}\
  \u{314}\
  \u{2010}\
  \u{20}\
  \u{333}\
  \u{2032}\
  \u{2032}\
  \u{2032}\
  \u{2032}\
  \u{2032}\
  \u{2035}\
  \u{2035}\
  \u{2035}\
  \u{2035}\
  \u{2035}\
  \u{21}\
  \u{21}\
  \u{20}\
  \u{305}\
  \u{3f}\
  \u{3f}\
  \u{3f}\
  \u{21}\
  \u{21}\
  \u{3f}\
  \u{2032}\
  \u{2032}\
  \u{2032}\
  \u{2032}\
  \u{30}\
  \u{34}\
  \u{35}\
  \u{36}\
  \u{37}\
  \u{38}\
  \u{39}\
  \u{2b}\
  \u{2212}\
  \u{3d}\
  \u{28}\
  \u{29}\
  \u{72}\
  \u{73}\
  \u{61}\
  \u{2f}\
  \u{63}\
  \u{61}\
  \u{2f}\
  \u{73}\
  \u{b0}\
  \u{63}\
  \u{63}\
  \u{2f}\
  \u{6f}\
  \u{63}\
  \u{2f}\
  \u{75}\
  \u{b0}\
  \u{66}\
  \u{6e}\
  \u{6f}\
  \u{73}\
  \u{6d}\
  \u{74}\
  \u{65}\
  \u{6c}\
  \u{74}\
  \u{6d}\
  \u{5d0}\
  \u{5d1}\
  \u{5d2}\
  \u{5d3}\
  \u{66}\
  \u{61}\
  \u{78}\
  \u{2211}\
  \u{31}\
  \u{2044}\
  \u{37}\
  \u{31}\
  \u{2044}\
  \u{39}\
  \u{31}\
  \u{2044}\
  \u{31}\
  \u{30}\
  \u{31}\
  \u{2044}\
  \u{33}\
  \u{32}\
  \u{2044}\
  \u{33}\
  \u{31}\
  \u{2044}\
  \u{35}\
  \u{32}\
  \u{2044}\
  \u{35}\
  \u{33}\
  \u{2044}\
  \u{35}\
  \u{34}\
  \u{2044}\
  \u{35}\
  \u{31}\
  \u{2044}\
  \u{36}\
  \u{35}\
  \u{2044}\
  \u{36}\
  \u{31}\
  \u{2044}\
  \u{38}\
  \u{33}\
  \u{2044}\
  \u{38}\
  \u{35}\
  \u{2044}\
  \u{38}\
  \u{37}\
  \u{2044}\
  \u{38}\
  \u{31}\
  \u{2044}\
  \u{69}\
  \u{69}\
  \u{69}\
  \u{69}\
  \u{69}\
  \u{69}\
  \u{76}\
  \u{76}\
  \u{69}\
  \u{76}\
  \u{69}\
  \u{69}\
  \u{76}\
  \u{69}\
  \u{69}\
  \u{69}\
  \u{69}\
  \u{78}\
  \u{78}\
  \u{69}\
  \u{78}\
  \u{69}\
  \u{69}\
  \u{30}\
  \u{2044}\
  \u{33}\
  \u{222b}\
  \u{222b}\
  \u{222b}\
  \u{222b}\
  \u{222b}\
  \u{222e}\
  \u{222e}\
  \u{222e}\
  \u{222e}\
  \u{222e}\
  \u{3008}\
  \u{3009}\
  \u{31}\
  \u{30}\
  \u{31}\
  \u{31}\
  \u{31}\
  \u{32}\
  \u{31}\
  \u{33}\
  \u{31}\
  \u{34}\
  \u{31}\
  \u{35}\
  \u{31}\
  \u{36}\
  \u{31}\
  \u{37}\
  \u{31}\
  \u{38}\
  \u{31}\
  \u{39}\
  \u{32}\
  \u{30}\
  \u{28}\
  \u{31}\
  \u{29}\
  \u{28}\
  \u{32}\
  \u{29}\
  \u{28}\
  \u{33}\
  \u{29}\
  \u{28}\
  \u{34}\
  \u{29}\
  \u{28}\
  \u{35}\
  \u{29}\
  \u{28}\
  \u{36}\
  \u{29}\
  \u{28}\
  \u{37}\
  \u{29}\
  \u{28}\
  \u{38}\
  \u{29}\
  \u{28}\
  \u{39}\
  \u{29}\
  \u{28}\
  \u{31}\
  \u{30}\
  \u{29}\
  \u{28}\
  \u{31}\
  \u{31}\
  \u{29}\
  \u{28}\
  \u{31}\
  \u{32}\
  \u{29}\
  \u{28}\
  \u{31}\
  \u{33}\
  \u{29}\
  \u{28}\
  \u{31}\
  \u{34}\
  \u{29}\
  \u{28}\
  \u{31}\
  \u{35}\
  \u{29}\
  \u{28}\
  \u{31}\
  \u{36}\
  \u{29}\
  \u{28}\
  \u{31}\
  \u{37}\
  \u{29}\
  \u{28}\
  \u{31}\
  \u{38}\
  \u{29}\
  \u{28}\
  \u{31}\
  \u{39}\
  \u{29}\
  \u{28}\
  \u{32}\
  \u{30}\
  \u{29}\
  \u{28}\
  \u{61}\
  \u{29}\
  \u{28}\
  \u{62}\
  \u{29}\
  \u{28}\
  \u{63}\
  \u{29}\
  \u{28}\
  \u{64}\
  \u{29}\
  \u{28}\
  \u{65}\
  \u{29}\
  \u{28}\
  \u{66}\
  \u{29}\
  \u{28}\
  \u{67}\
  \u{29}\
  \u{28}\
  \u{68}\
  \u{29}\
  \u{28}\
  \u{69}\
  \u{29}\
  \u{28}\
  \u{6a}\
  \u{29}\
  \u{28}\
  \u{6b}\
  \u{29}\
  \u{28}\
  \u{6c}\
  \u{29}\
  \u{28}\
  \u{6d}\
  \u{29}\
  \u{28}\
  \u{6e}\
  \u{29}\
  \u{28}\
  \u{6f}\
  \u{29}\
  \u{28}\
  \u{70}\
  \u{29}\
  \u{28}\
  \u{71}\
  \u{29}\
  \u{28}\
  \u{72}\
  \u{29}\
  \u{28}\
  \u{73}\
  \u{29}\
  \u{28}\
  \u{74}\
  \u{29}\
  \u{28}\
  \u{75}\
  \u{29}\
  \u{28}\
  \u{76}\
  \u{29}\
  \u{28}\
  \u{77}\
  \u{29}\
  \u{28}\
  \u{78}\
  \u{29}\
  \u{28}\
  \u{79}\
  \u{29}\
  \u{28}\
  \u{7a}\
  \u{29}\
  \u{222b}\
  \u{222b}\
  \u{222b}\
  \u{222b}\
  \u{3a}\
  \u{3a}\
  \u{3d}\
  \u{3d}\
  \u{3d}\
  \u{3d}\
  \u{3d}\
  \u{3d}\
  \u{2add}\
  \u{338}\
  \u{2c30}\
  \u{2c31}\
  \u{2c32}\
  \u{2c33}\
  \u{2c34}\
  \u{2c35}\
  \u{2c36}\
  \u{2c37}\
  \u{2c38}\
  \u{2c39}\
  \u{2c3a}\
  \u{2c3b}\
  \u{2c3c}\
  \u{2c3d}\
  \u{2c3e}\
  \u{2c3f}\
  \u{2c40}\
  \u{2c41}\
  \u{2c42}\
  \u{2c43}\
  \u{2c44}\
  \u{2c45}\
  \u{2c46}\
  \u{2c47}\
  \u{2c48}\
  \u{2c49}\
  \u{2c4a}\
  \u{2c4b}\
  \u{2c4c}\
  \u{2c4d}\
  \u{2c4e}\
  \u{2c4f}\
  \u{2c50}\
  \u{2c51}\
  \u{2c52}\
  \u{2c53}\
  \u{2c54}\
  \u{2c55}\
  \u{2c56}\
  \u{2c57}\
  \u{2c58}\
  \u{2c59}\
  \u{2c5a}\
  \u{2c5b}\
  \u{2c5c}\
  \u{2c5d}\
  \u{2c5e}\
  \u{2c61}\
  \u{26b}\
  \u{1d7d}\
  \u{27d}\
  \u{2c68}\
  \u{2c6a}\
  \u{2c6c}\
  \u{2c73}\
  \u{2c76}\
  \u{23f}\
  \u{240}\
  \u{2c81}\
  \u{2c83}\
  \u{2c85}\
  \u{2c87}\
  \u{2c89}\
  \u{2c8b}\
  \u{2c8d}\
  \u{2c8f}\
  \u{2c91}\
  \u{2c93}\
  \u{2c95}\
  \u{2c97}\
  \u{2c99}\
  \u{2c9b}\
  \u{2c9d}\
  \u{2c9f}\
  \u{2ca1}\
  \u{2ca3}\
  \u{2ca5}\
  \u{2ca7}\
  \u{2ca9}\
  \u{2cab}\
  \u{2cad}\
  \u{2caf}\
  \u{2cb1}\
  \u{2cb3}\
  \u{2cb5}\
  \u{2cb7}\
  \u{2cb9}\
  \u{2cbb}\
  \u{2cbd}\
  \u{2cbf}\
  \u{2cc1}\
  \u{2cc3}\
  \u{2cc5}\
  \u{2cc7}\
  \u{2cc9}\
  \u{2ccb}\
  \u{2ccd}\
  \u{2ccf}\
  \u{2cd1}\
  \u{2cd3}\
  \u{2cd5}\
  \u{2cd7}\
  \u{2cd9}\
  \u{2cdb}\
  \u{2cdd}\
  \u{2cdf}\
  \u{2ce1}\
  \u{2ce3}\
  \u{2cec}\
  \u{2cee}\
  \u{2cf3}\
  \u{2d61}\
  \u{6bcd}\
  \u{9f9f}\
  \u{4e00}\
  \u{4e28}\
  \u{4e36}\
  \u{4e3f}\
  \u{4e59}\
  \u{4e85}\
  \u{4e8c}\
  \u{4ea0}\
  \u{4eba}\
  \u{513f}\
  \u{5165}\
  \u{516b}\
  \u{5182}\
  \u{5196}\
  \u{51ab}\
  \u{51e0}\
  \u{51f5}\
  \u{5200}\
  \u{529b}\
  \u{52f9}\
  \u{5315}\
  \u{531a}\
  \u{5338}\
  \u{5341}\
  \u{535c}\
  \u{5369}\
  \u{5382}\
  \u{53b6}\
  \u{53c8}\
  \u{53e3}\
  \u{56d7}\
  \u{571f}\
  \u{58eb}\
  \u{5902}\
  \u{590a}\
  \u{5915}\
  \u{5927}\
  \u{5973}\
  \u{5b50}\
  \u{5b80}\
  \u{5bf8}\
  \u{5c0f}\
  \u{5c22}\
  \u{5c38}\
  \u{5c6e}\
  \u{5c71}\
  \u{5ddb}\
  \u{5de5}\
  \u{5df1}\
  \u{5dfe}\
  \u{5e72}\
  \u{5e7a}\
  \u{5e7f}\
  \u{5ef4}\
  \u{5efe}\
  \u{5f0b}\
  \u{5f13}\
  \u{5f50}\
  \u{5f61}\
  \u{5f73}\
  \u{5fc3}\
  \u{6208}\
  \u{6236}\
  \u{624b}\
  \u{652f}\
  \u{6534}\
  \u{6587}\
  \u{6597}\
  \u{65a4}\
  \u{65b9}\
  \u{65e0}\
  \u{65e5}\
  \u{66f0}\
  \u{6708}\
  \u{6728}\
  \u{6b20}\
  \u{6b62}\
  \u{6b79}\
  \u{6bb3}\
  \u{6bcb}\
  \u{6bd4}\
  \u{6bdb}\
  \u{6c0f}\
  \u{6c14}\
  \u{6c34}\
  \u{706b}\
  \u{722a}\
  \u{7236}\
  \u{723b}\
  \u{723f}\
  \u{7247}\
  \u{7259}\
  \u{725b}\
  \u{72ac}\
  \u{7384}\
  \u{7389}\
  \u{74dc}\
  \u{74e6}\
  \u{7518}\
  \u{751f}\
  \u{7528}\
  \u{7530}\
  \u{758b}\
  \u{7592}\
  \u{7676}\
  \u{767d}\
  \u{76ae}\
  \u{76bf}\
  \u{76ee}\
  \u{77db}\
  \u{77e2}\
  \u{77f3}\
  \u{793a}\
  \u{79b8}\
  \u{79be}\
  \u{7a74}\
  \u{7acb}\
  \u{7af9}\
  \u{7c73}\
  \u{7cf8}\
  \u{7f36}\
  \u{7f51}\
  \u{7f8a}\
  \u{7fbd}\
  \u{8001}\
  \u{800c}\
  \u{8012}\
  \u{8033}\
  \u{807f}\
  \u{8089}\
  \u{81e3}\
  \u{81ea}\
  \u{81f3}\
  \u{81fc}\
  \u{820c}\
  \u{821b}\
  \u{821f}\
  \u{826e}\
  \u{8272}\
  \u{8278}\
  \u{864d}\
  \u{866b}\
  \u{8840}\
  \u{884c}\
  \u{8863}\
  \u{897e}\
  \u{898b}\
  \u{89d2}\
  \u{8a00}\
  \u{8c37}\
  \u{8c46}\
  \u{8c55}\
  \u{8c78}\
  \u{8c9d}\
  \u{8d64}\
  \u{8d70}\
  \u{8db3}\
  \u{8eab}\
  \u{8eca}\
  \u{8f9b}\
  \u{8fb0}\
  \u{8fb5}\
  \u{9091}\
  \u{9149}\
  \u{91c6}\
  \u{91cc}\
  \u{91d1}\
  \u{9577}\
  \u{9580}\
  \u{961c}\
  \u{96b6}\
  \u{96b9}\
  \u{96e8}\
  \u{9751}\
  \u{975e}\
  \u{9762}\
  \u{9769}\
  \u{97cb}\
  \u{97ed}\
  \u{97f3}\
  \u{9801}\
  \u{98a8}\
  \u{98db}\
  \u{98df}\
  \u{9996}\
  \u{9999}\
  \u{99ac}\
  \u{9aa8}\
  \u{9ad8}\
  \u{9adf}\
  \u{9b25}\
  \u{9b2f}\
  \u{9b32}\
  \u{9b3c}\
  \u{9b5a}\
  \u{9ce5}\
  \u{9e75}\
  \u{9e7f}\
  \u{9ea5}\
  \u{9ebb}\
  \u{9ec3}\
  \u{9ecd}\
  \u{9ed1}\
  \u{9ef9}\
  \u{9efd}\
  \u{9f0e}\
  \u{9f13}\
  \u{9f20}\
  \u{9f3b}\
  \u{9f4a}\
  \u{9f52}\
  \u{9f8d}\
  \u{9f9c}\
  \u{9fa0}\
  \u{2e}\
  \u{3012}\
  \u{5344}\
  \u{5345}\
  \u{20}\
  \u{3099}\
  \u{20}\
  \u{309a}\
  \u{3088}\
  \u{308a}\
  \u{30b3}\
  \u{30c8}\
  \u{1100}\
  \u{1101}\
  \u{11aa}\
  \u{1102}\
  \u{11ac}\
  \u{11ad}\
  \u{1103}\
  \u{1104}\
  \u{1105}\
  \u{11b0}\
  \u{11b1}\
  \u{11b2}\
  \u{11b3}\
  \u{11b4}\
  \u{11b5}\
  \u{111a}\
  \u{1106}\
  \u{1107}\
  \u{1108}\
  \u{1121}\
  \u{1109}\
  \u{110a}\
  \u{110b}\
  \u{110c}\
  \u{110d}\
  \u{110e}\
  \u{110f}\
  \u{1110}\
  \u{1111}\
  \u{1112}\
  \u{1161}\
  \u{1162}\
  \u{1163}\
  \u{1164}\
  \u{1165}\
  \u{1166}\
  \u{1167}\
  \u{1168}\
  \u{1169}\
  \u{116a}\
  \u{116b}\
  \u{116c}\
  \u{116d}\
  \u{116e}\
  \u{116f}\
  \u{1170}\
  \u{1171}\
  \u{1172}\
  \u{1173}\
  \u{1174}\
  \u{1175}\
  \u{1114}\
  \u{1115}\
  \u{11c7}\
  \u{11c8}\
  \u{11cc}\
  \u{11ce}\
  \u{11d3}\
  \u{11d7}\
  \u{11d9}\
  \u{111c}\
  \u{11dd}\
  \u{11df}\
  \u{111d}\
  \u{111e}\
  \u{1120}\
  \u{1122}\
  \u{1123}\
  \u{1127}\
  \u{1129}\
  \u{112b}\
  \u{112c}\
  \u{112d}\
  \u{112e}\
  \u{112f}\
  \u{1132}\
  \u{1136}\
  \u{1140}\
  \u{1147}\
  \u{114c}\
  \u{11f1}\
  \u{11f2}\
  \u{1157}\
  \u{1158}\
  \u{1159}\
  \u{1184}\
  \u{1185}\
  \u{1188}\
  \u{1191}\
  \u{1192}\
  \u{1194}\
  \u{119e}\
  \u{11a1}\
  \u{4e09}\
  \u{56db}\
  \u{4e0a}\
  \u{4e2d}\
  \u{4e0b}\
  \u{7532}\
  \u{4e19}\
  \u{4e01}\
  \u{5929}\
  \u{5730}\
  \u{28}\
  \u{1100}\
  \u{29}\
  \u{28}\
  \u{1102}\
  \u{29}\
  \u{28}\
  \u{1103}\
  \u{29}\
  \u{28}\
  \u{1105}\
  \u{29}\
  \u{28}\
  \u{1106}\
  \u{29}\
  \u{28}\
  \u{1107}\
  \u{29}\
  \u{28}\
  \u{1109}\
  \u{29}\
  \u{28}\
  \u{110b}\
  \u{29}\
  \u{28}\
  \u{110c}\
  \u{29}\
  \u{28}\
  \u{110e}\
  \u{29}\
  \u{28}\
  \u{110f}\
  \u{29}\
  \u{28}\
  \u{1110}\
  \u{29}\
  \u{28}\
  \u{1111}\
  \u{29}\
  \u{28}\
  \u{1112}\
  \u{29}\
  \u{28}\
  \u{ac00}\
  \u{29}\
  \u{28}\
  \u{b098}\
  \u{29}\
  \u{28}\
  \u{b2e4}\
  \u{29}\
  \u{28}\
  \u{b77c}\
  \u{29}\
  \u{28}\
  \u{b9c8}\
  \u{29}\
  \u{28}\
  \u{bc14}\
  \u{29}\
  \u{28}\
  \u{c0ac}\
  \u{29}\
  \u{28}\
  \u{c544}\
  \u{29}\
  \u{28}\
  \u{c790}\
  \u{29}\
  \u{28}\
  \u{cc28}\
  \u{29}\
  \u{28}\
  \u{ce74}\
  \u{29}\
  \u{28}\
  \u{d0c0}\
  \u{29}\
  \u{28}\
  \u{d30c}\
  \u{29}\
  \u{28}\
  \u{d558}\
  \u{29}\
  \u{28}\
  \u{c8fc}\
  \u{29}\
  \u{28}\
  \u{c624}\
  \u{c804}\
  \u{29}\
  \u{28}\
  \u{c624}\
  \u{d6c4}\
  \u{29}\
  \u{28}\
  \u{4e00}\
  \u{29}\
  \u{28}\
  \u{4e8c}\
  \u{29}\
  \u{28}\
  \u{4e09}\
  \u{29}\
  \u{28}\
  \u{56db}\
  \u{29}\
  \u{28}\
  \u{4e94}\
  \u{29}\
  \u{28}\
  \u{516d}\
  \u{29}\
  \u{28}\
  \u{4e03}\
  \u{29}\
  \u{28}\
  \u{516b}\
  \u{29}\
  \u{28}\
  \u{4e5d}\
  \u{29}\
  \u{28}\
  \u{5341}\
  \u{29}\
  \u{28}\
  \u{6708}\
  \u{29}\
  \u{28}\
  \u{706b}\
  \u{29}\
  \u{28}\
  \u{6c34}\
  \u{29}\
  \u{28}\
  \u{6728}\
  \u{29}\
  \u{28}\
  \u{91d1}\
  \u{29}\
  \u{28}\
  \u{571f}\
  \u{29}\
  \u{28}\
  \u{65e5}\
  \u{29}\
  \u{28}\
  \u{682a}\
  \u{29}\
  \u{28}\
  \u{6709}\
  \u{29}\
  \u{28}\
  \u{793e}\
  \u{29}\
  \u{28}\
  \u{540d}\
  \u{29}\
  \u{28}\
  \u{7279}\
  \u{29}\
  \u{28}\
  \u{8ca1}\
  \u{29}\
  \u{28}\
  \u{795d}\
  \u{29}\
  \u{28}\
  \u{52b4}\
  \u{29}\
  \u{28}\
  \u{4ee3}\
  \u{29}\
  \u{28}\
  \u{547c}\
  \u{29}\
  \u{28}\
  \u{5b66}\
  \u{29}\
  \u{28}\
  \u{76e3}\
  \u{29}\
  \u{28}\
  \u{4f01}\
  \u{29}\
  \u{28}\
  \u{8cc7}\
  \u{29}\
  \u{28}\
  \u{5354}\
  \u{29}\
  \u{28}\
  \u{796d}\
  \u{29}\
  \u{28}\
  \u{4f11}\
  \u{29}\
  \u{28}\
  \u{81ea}\
  \u{29}\
  \u{28}\
  \u{81f3}\
  \u{29}\
  \u{554f}\
  \u{5e7c}\
  \u{7b8f}\
  \u{70}\
  \u{74}\
  \u{65}\
  \u{32}\
  \u{31}\
  \u{32}\
  \u{32}\
  \u{32}\
  \u{33}\
  \u{32}\
  \u{34}\
  \u{32}\
  \u{35}\
  \u{32}\
  \u{36}\
  \u{32}\
  \u{37}\
  \u{32}\
  \u{38}\
  \u{32}\
  \u{39}\
  \u{33}\
  \u{30}\
  \u{33}\
  \u{31}\
  \u{33}\
  \u{32}\
  \u{33}\
  \u{33}\
  \u{33}\
  \u{34}\
  \u{33}\
  \u{35}\
  \u{ac00}\
  \u{b098}\
  \u{b2e4}\
  \u{b77c}\
  \u{b9c8}\
  \u{bc14}\
  \u{c0ac}\
  \u{c544}\
  \u{c790}\
  \u{cc28}\
  \u{ce74}\
  \u{d0c0}\
  \u{d30c}\
  \u{d558}\
  \u{cc38}\
  \u{ace0}\
  \u{c8fc}\
  \u{c758}\
  \u{c6b0}\
  \u{4e94}\
  \u{516d}\
  \u{4e03}\
  \u{4e5d}\
  \u{682a}\
  \u{6709}\
  \u{793e}\
  \u{540d}\
  \u{7279}\
  \u{8ca1}\
  \u{795d}\
  \u{52b4}\
  \u{79d8}\
  \u{7537}\
  \u{9069}\
  \u{512a}\
  \u{5370}\
  \u{6ce8}\
  \u{9805}\
  \u{4f11}\
  \u{5199}\
  \u{6b63}\
  \u{5de6}\
  \u{53f3}\
  \u{533b}\
  \u{5b97}\
  \u{5b66}\
  \u{76e3}\
  \u{4f01}\
  \u{8cc7}\
  \u{5354}\
  \u{591c}\
  \u{33}\
  \u{36}\
  \u{33}\
  \u{37}\
  \u{33}\
  \u{38}\
  \u{33}\
  \u{39}\
  \u{34}\
  \u{30}\
  \u{34}\
  \u{31}\
  \u{34}\
  \u{32}\
  \u{34}\
  \u{33}\
  \u{34}\
  \u{34}\
  \u{34}\
  \u{35}\
  \u{34}\
  \u{36}\
  \u{34}\
  \u{37}\
  \u{34}\
  \u{38}\
  \u{34}\
  \u{39}\
  \u{35}\
  \u{30}\
  \u{31}\
  \u{6708}\
  \u{32}\
  \u{6708}\
  \u{33}\
  \u{6708}\
  \u{34}\
  \u{6708}\
  \u{35}\
  \u{6708}\
  \u{36}\
  \u{6708}\
  \u{37}\
  \u{6708}\
  \u{38}\
  \u{6708}\
  \u{39}\
  \u{6708}\
  \u{31}\
  \u{30}\
  \u{6708}\
  \u{31}\
  \u{31}\
  \u{6708}\
  \u{31}\
  \u{32}\
  \u{6708}\
  \u{68}\
  \u{67}\
  \u{65}\
  \u{72}\
  \u{67}\
  \u{65}\
  \u{76}\
  \u{6c}\
  \u{74}\
  \u{64}\
  \u{30a2}\
  \u{30a4}\
  \u{30a6}\
  \u{30a8}\
  \u{30aa}\
  \u{30ab}\
  \u{30ad}\
  \u{30af}\
  \u{30b1}\
  \u{30b3}\
  \u{30b5}\
  \u{30b7}\
  \u{30b9}\
  \u{30bb}\
  \u{30bd}\
  \u{30bf}\
  \u{30c1}\
  \u{30c4}\
  \u{30c6}\
  \u{30c8}\
  \u{30ca}\
  \u{30cb}\
  \u{30cc}\
  \u{30cd}\
  \u{30ce}\
  \u{30cf}\
  \u{30d2}\
  \u{30d5}\
  \u{30d8}\
  \u{30db}\
  \u{30de}\
  \u{30df}\
  \u{30e0}\
  \u{30e1}\
  \u{30e2}\
  \u{30e4}\
  \u{30e6}\
  \u{30e8}\
  \u{30e9}\
  \u{30ea}\
  \u{30eb}\
  \u{30ec}\
  \u{30ed}\
  \u{30ef}\
  \u{30f0}\
  \u{30f1}\
  \u{30f2}\
  \u{4ee4}\
  \u{548c}\
  \u{30a2}\
  \u{30d1}\
  \u{30fc}\
  \u{30c8}\
  \u{30a2}\
  \u{30eb}\
  \u{30d5}\
  \u{30a1}\
  \u{30a2}\
  \u{30f3}\
  \u{30da}\
  \u{30a2}\
  \u{30a2}\
  \u{30fc}\
  \u{30eb}\
  \u{30a4}\
  \u{30cb}\
  \u{30f3}\
  \u{30b0}\
  \u{30a4}\
  \u{30f3}\
  \u{30c1}\
  \u{30a6}\
  \u{30a9}\
  \u{30f3}\
  \u{30a8}\
  \u{30b9}\
  \u{30af}\
  \u{30fc}\
  \u{30c9}\
  \u{30a8}\
  \u{30fc}\
  \u{30ab}\
  \u{30fc}\
  \u{30aa}\
  \u{30f3}\
  \u{30b9}\
  \u{30aa}\
  \u{30fc}\
  \u{30e0}\
  \u{30ab}\
  \u{30a4}\
  \u{30ea}\
  \u{30ab}\
  \u{30e9}\
  \u{30c3}\
  \u{30c8}\
  \u{30ab}\
  \u{30ed}\
  \u{30ea}\
  \u{30fc}\
  \u{30ac}\
  \u{30ed}\
  \u{30f3}\
  \u{30ac}\
  \u{30f3}\
  \u{30de}\
  \u{30ae}\
  \u{30ac}\
  \u{30ae}\
  \u{30cb}\
  \u{30fc}\
  \u{30ad}\
  \u{30e5}\
  \u{30ea}\
  \u{30fc}\
  \u{30ae}\
  \u{30eb}\
  \u{30c0}\
  \u{30fc}\
  \u{30ad}\
  \u{30ed}\
  \u{30ad}\
  \u{30ed}\
  \u{30b0}\
  \u{30e9}\
  \u{30e0}\
  \u{30ad}\
  \u{30ed}\
  \u{30e1}\
  \u{30fc}\
  \u{30c8}\
  \u{30eb}\
  \u{30ad}\
  \u{30ed}\
  \u{30ef}\
  \u{30c3}\
  \u{30c8}\
  \u{30b0}\
  \u{30e9}\
  \u{30e0}\
  \u{30b0}\
  \u{30e9}\
  \u{30e0}\
  \u{30c8}\
  \u{30f3}\
  \u{30af}\
  \u{30eb}\
  \u{30bc}\
  \u{30a4}\
  \u{30ed}\
  \u{30af}\
  \u{30ed}\
  \u{30fc}\
  \u{30cd}\
  \u{30b1}\
  \u{30fc}\
  \u{30b9}\
  \u{30b3}\
  \u{30eb}\
  \u{30ca}\
  \u{30b3}\
  \u{30fc}\
  \u{30dd}\
  \u{30b5}\
  \u{30a4}\
  \u{30af}\
  \u{30eb}\
  \u{30b5}\
  \u{30f3}\
  \u{30c1}\
  \u{30fc}\
  \u{30e0}\
  \u{30b7}\
  \u{30ea}\
  \u{30f3}\
  \u{30b0}\
  \u{30bb}\
  \u{30f3}\
  \u{30c1}\
  \u{30bb}\
  \u{30f3}\
  \u{30c8}\
  \u{30c0}\
  \u{30fc}\
  \u{30b9}\
  \u{30c7}\
  \u{30b7}\
  \u{30c9}\
  \u{30eb}\
  \u{30c8}\
  \u{30f3}\
  \u{30ca}\
  \u{30ce}\
  \u{30ce}\
  \u{30c3}\
  \u{30c8}\
  \u{30cf}\
  \u{30a4}\
  \u{30c4}\
  \u{30d1}\
  \u{30fc}\
  \u{30bb}\
  \u{30f3}\
  \u{30c8}\
  \u{30d1}\
  \u{30fc}\
  \u{30c4}\
  \u{30d0}\
  \u{30fc}\
  \u{30ec}\
  \u{30eb}\
  \u{30d4}\
  \u{30a2}\
  \u{30b9}\
  \u{30c8}\
  \u{30eb}\
  \u{30d4}\
  \u{30af}\
  \u{30eb}\
  \u{30d4}\
  \u{30b3}\
  \u{30d3}\
  \u{30eb}\
  \u{30d5}\
  \u{30a1}\
  \u{30e9}\
  \u{30c3}\
  \u{30c9}\
  \u{30d5}\
  \u{30a3}\
  \u{30fc}\
  \u{30c8}\
  \u{30d6}\
  \u{30c3}\
  \u{30b7}\
  \u{30a7}\
  \u{30eb}\
  \u{30d5}\
  \u{30e9}\
  \u{30f3}\
  \u{30d8}\
  \u{30af}\
  \u{30bf}\
  \u{30fc}\
  \u{30eb}\
  \u{30da}\
  \u{30bd}\
  \u{30da}\
  \u{30cb}\
  \u{30d2}\
  \u{30d8}\
  \u{30eb}\
  \u{30c4}\
  \u{30da}\
  \u{30f3}\
  \u{30b9}\
  \u{30da}\
  \u{30fc}\
  \u{30b8}\
  \u{30d9}\
  \u{30fc}\
  \u{30bf}\
  \u{30dd}\
  \u{30a4}\
  \u{30f3}\
  \u{30c8}\
  \u{30dc}\
  \u{30eb}\
  \u{30c8}\
  \u{30db}\
  \u{30f3}\
  \u{30dd}\
  \u{30f3}\
  \u{30c9}\
  \u{30db}\
  \u{30fc}\
  \u{30eb}\
  \u{30db}\
  \u{30fc}\
  \u{30f3}\
  \u{30de}\
  \u{30a4}\
  \u{30af}\
  \u{30ed}\
  \u{30de}\
  \u{30a4}\
  \u{30eb}\
  \u{30de}\
  \u{30c3}\
  \u{30cf}\
  \u{30de}\
  \u{30eb}\
  \u{30af}\
  \u{30de}\
  \u{30f3}\
  \u{30b7}\
  \u{30e7}\
  \u{30f3}\
  \u{30df}\
  \u{30af}\
  \u{30ed}\
  \u{30f3}\
  \u{30df}\
  \u{30ea}\
  \u{30df}\
  \u{30ea}\
  \u{30d0}\
  \u{30fc}\
  \u{30eb}\
  \u{30e1}\
  \u{30ac}\
  \u{30e1}\
  \u{30ac}\
  \u{30c8}\
  \u{30f3}\
  \u{30e1}\
  \u{30fc}\
  \u{30c8}\
  \u{30eb}\
  \u{30e4}\
  \u{30fc}\
  \u{30c9}\
  \u{30e4}\
  \u{30fc}\
  \u{30eb}\
  \u{30e6}\
  \u{30a2}\
  \u{30f3}\
  \u{30ea}\
  \u{30c3}\
  \u{30c8}\
  \u{30eb}\
  \u{30ea}\
  \u{30e9}\
  \u{30eb}\
  \u{30d4}\
  \u{30fc}\
  \u{30eb}\
  \u{30fc}\
  \u{30d6}\
  \u{30eb}\
  \u{30ec}\
  \u{30e0}\
  \u{30ec}\
  \u{30f3}\
  \u{30c8}\
  \u{30b2}\
  \u{30f3}\
  \u{30ef}\
  \u{30c3}\
  \u{30c8}\
  \u{30}\
  \u{70b9}\
  \u{31}\
  \u{70b9}\
  \u{32}\
  \u{70b9}\
  \u{33}\
  \u{70b9}\
  \u{34}\
  \u{70b9}\
  \u{35}\
  \u{70b9}\
  \u{36}\
  \u{70b9}\
  \u{37}\
  \u{70b9}\
  \u{38}\
  \u{70b9}\
  \u{39}\
  \u{70b9}\
  \u{31}\
  \u{30}\
  \u{70b9}\
  \u{31}\
  \u{31}\
  \u{70b9}\
  \u{31}\
  \u{32}\
  \u{70b9}\
  \u{31}\
  \u{33}\
  \u{70b9}\
  \u{31}\
  \u{34}\
  \u{70b9}\
  \u{31}\
  \u{35}\
  \u{70b9}\
  \u{31}\
  \u{36}\
  \u{70b9}\
  \u{31}\
  \u{37}\
  \u{70b9}\
  \u{31}\
  \u{38}\
  \u{70b9}\
  \u{31}\
  \u{39}\
  \u{70b9}\
  \u{32}\
  \u{30}\
  \u{70b9}\
  \u{32}\
  \u{31}\
  \u{70b9}\
  \u{32}\
  \u{32}\
  \u{70b9}\
  \u{32}\
  \u{33}\
  \u{70b9}\
  \u{32}\
  \u{34}\
  \u{70b9}\
  \u{68}\
  \u{70}\
  \u{61}\
  \u{64}\
  \u{61}\
  \u{61}\
  \u{75}\
  \u{62}\
  \u{61}\
  \u{72}\
  \u{6f}\
  \u{76}\
  \u{70}\
  \u{63}\
  \u{64}\
  \u{6d}\
  \u{64}\
  \u{6d}\
  \u{32}\
  \u{64}\
  \u{6d}\
  \u{33}\
  \u{69}\
  \u{75}\
  \u{5e73}\
  \u{6210}\
  \u{662d}\
  \u{548c}\
  \u{5927}\
  \u{6b63}\
  \u{660e}\
  \u{6cbb}\
  \u{682a}\
  \u{5f0f}\
  \u{4f1a}\
  \u{793e}\
  \u{70}\
  \u{61}\
  \u{6e}\
  \u{61}\
  \u{3bc}\
  \u{61}\
  \u{6d}\
  \u{61}\
  \u{6b}\
  \u{61}\
  \u{6b}\
  \u{62}\
  \u{6d}\
  \u{62}\
  \u{67}\
  \u{62}\
  \u{63}\
  \u{61}\
  \u{6c}\
  \u{6b}\
  \u{63}\
  \u{61}\
  \u{6c}\
  \u{70}\
  \u{66}\
  \u{6e}\
  \u{66}\
  \u{3bc}\
  \u{66}\
  \u{3bc}\
  \u{67}\
  \u{6d}\
  \u{67}\
  \u{6b}\
  \u{67}\
  \u{68}\
  \u{7a}\
  \u{6b}\
  \u{68}\
  \u{7a}\
  \u{6d}\
  \u{68}\
  \u{7a}\
  \u{67}\
  \u{68}\
  \u{7a}\
  \u{74}\
  \u{68}\
  \u{7a}\
  \u{3bc}\
  \u{6c}\
  \u{6d}\
  \u{6c}\
  \u{64}\
  \u{6c}\
  \u{6b}\
  \u{6c}\
  \u{66}\
  \u{6d}\
  \u{6e}\
  \u{6d}\
  \u{3bc}\
  \u{6d}\
  \u{6d}\
  \u{6d}\
  \u{63}\
  \u{6d}\
  \u{6b}\
  \u{6d}\
  \u{6d}\
  \u{6d}\
  \u{32}\
  \u{63}\
  \u{6d}\
  \u{32}\
  \u{6d}\
  \u{32}\
  \u{6b}\
  \u{6d}\
  \u{32}\
  \u{6d}\
  \u{6d}\
  \u{33}\
  \u{63}\
  \u{6d}\
  \u{33}\
  \u{6d}\
  \u{33}\
  \u{6b}\
  \u{6d}\
  \u{33}\
  \u{6d}\
  \u{2215}\
  \u{73}\
  \u{6d}\
  \u{2215}\
  \u{73}\
  \u{32}\
  \u{6b}\
  \u{70}\
  \u{61}\
  \u{6d}\
  \u{70}\
  \u{61}\
  \u{67}\
  \u{70}\
  \u{61}\
  \u{72}\
  \u{61}\
  \u{64}\
  \u{72}\
  \u{61}\
  \u{64}\
  \u{2215}\
  \u{73}\
  \u{72}\
  \u{61}\
  \u{64}\
  \u{2215}\
  \u{73}\
  \u{32}\
  \u{70}\
  \u{73}\
  \u{6e}\
  \u{73}\
  \u{3bc}\
  \u{73}\
  \u{6d}\
  \u{73}\
  \u{70}\
  \u{76}\
  \u{6e}\
  \u{76}\
  \u{3bc}\
  \u{76}\
  \u{6d}\
  \u{76}\
  \u{6b}\
  \u{76}\
  \u{70}\
  \u{77}\
  \u{6e}\
  \u{77}\
  \u{3bc}\
  \u{77}\
  \u{6d}\
  \u{77}\
  \u{6b}\
  \u{77}\
  \u{6b}\
  \u{3c9}\
  \u{6d}\
  \u{3c9}\
  \u{62}\
  \u{71}\
  \u{63}\
  \u{63}\
  \u{63}\
  \u{64}\
  \u{63}\
  \u{2215}\
  \u{6b}\
  \u{67}\
  \u{64}\
  \u{62}\
  \u{67}\
  \u{79}\
  \u{68}\
  \u{61}\
  \u{68}\
  \u{70}\
  \u{69}\
  \u{6e}\
  \u{6b}\
  \u{6b}\
  \u{6b}\
  \u{74}\
  \u{6c}\
  \u{6d}\
  \u{6c}\
  \u{6e}\
  \u{6c}\
  \u{6f}\
  \u{67}\
  \u{6c}\
  \u{78}\
  \u{6d}\
  \u{69}\
  \u{6c}\
  \u{6d}\
  \u{6f}\
  \u{6c}\
  \u{70}\
  \u{68}\
  \u{70}\
  \u{70}\
  \u{6d}\
  \u{70}\
  \u{72}\
  \u{73}\
  \u{72}\
  \u{73}\
  \u{76}\
  \u{77}\
  \u{62}\
  \u{76}\
  \u{2215}\
  \u{6d}\
  \u{61}\
  \u{2215}\
  \u{6d}\
  \u{31}\
  \u{65e5}\
  \u{32}\
  \u{65e5}\
  \u{33}\
  \u{65e5}\
  \u{34}\
  \u{65e5}\
  \u{35}\
  \u{65e5}\
  \u{36}\
  \u{65e5}\
  \u{37}\
  \u{65e5}\
  \u{38}\
  \u{65e5}\
  \u{39}\
  \u{65e5}\
  \u{31}\
  \u{30}\
  \u{65e5}\
  \u{31}\
  \u{31}\
  \u{65e5}\
  \u{31}\
  \u{32}\
  \u{65e5}\
  \u{31}\
  \u{33}\
  \u{65e5}\
  \u{31}\
  \u{34}\
  \u{65e5}\
  \u{31}\
  \u{35}\
  \u{65e5}\
  \u{31}\
  \u{36}\
  \u{65e5}\
  \u{31}\
  \u{37}\
  \u{65e5}\
  \u{31}\
  \u{38}\
  \u{65e5}\
  \u{31}\
  \u{39}\
  \u{65e5}\
  \u{32}\
  \u{30}\
  \u{65e5}\
  \u{32}\
  \u{31}\
  \u{65e5}\
  \u{32}\
  \u{32}\
  \u{65e5}\
  \u{32}\
  \u{33}\
  \u{65e5}\
  \u{32}\
  \u{34}\
  \u{65e5}\
  \u{32}\
  \u{35}\
  \u{65e5}\
  \u{32}\
  \u{36}\
  \u{65e5}\
  \u{32}\
  \u{37}\
  \u{65e5}\
  \u{32}\
  \u{38}\
  \u{65e5}\
  \u{32}\
  \u{39}\
  \u{65e5}\
  \u{33}\
  \u{30}\
  \u{65e5}\
  \u{33}\
  \u{31}\
  \u{65e5}\
  \u{67}\
  \u{61}\
  \u{6c}\
  \u{a641}\
  \u{a643}\
  \u{a645}\
  \u{a647}\
  \u{a649}\
  \u{a64d}\
  \u{a64f}\
  \u{a651}\
  \u{a653}\
  \u{a655}\
  \u{a657}\
  \u{a659}\
  \u{a65b}\
  \u{a65d}\
  \u{a65f}\
  \u{a661}\
  \u{a663}\
  \u{a665}\
  \u{a667}\
  \u{a669}\
  \u{a66b}\
  \u{a66d}\
  \u{a681}\
  \u{a683}\
  \u{a685}\
  \u{a687}\
  \u{a689}\
  \u{a68b}\
  \u{a68d}\
  \u{a68f}\
  \u{a691}\
  \u{a693}\
  \u{a695}\
  \u{a697}\
  \u{a699}\
  \u{a69b}\
  \u{a723}\
  \u{a725}\
  \u{a727}\
  \u{a729}\
  \u{a72b}\
  \u{a72d}\
  \u{a72f}\
  \u{a733}\
  \u{a735}\
  \u{a737}\
  \u{a739}\
  \u{a73b}\
  \u{a73d}\
  \u{a73f}\
  \u{a741}\
  \u{a743}\
  \u{a745}\
  \u{a747}\
  \u{a749}\
  \u{a74b}\
  \u{a74d}\
  \u{a74f}\
  \u{a751}\
  \u{a753}\
  \u{a755}\
  \u{a757}\
  \u{a759}\
  \u{a75b}\
  \u{a75d}\
  \u{a75f}\
  \u{a761}\
  \u{a763}\
  \u{a765}\
  \u{a767}\
  \u{a769}\
  \u{a76b}\
  \u{a76d}\
  \u{a76f}\
  \u{a77a}\
  \u{a77c}\
  \u{1d79}\
  \u{a77f}\
  \u{a781}\
  \u{a783}\
  \u{a785}\
  \u{a787}\
  \u{a78c}\
  \u{a791}\
  \u{a793}\
  \u{a797}\
  \u{a799}\
  \u{a79b}\
  \u{a79d}\
  \u{a79f}\
  \u{a7a1}\
  \u{a7a3}\
  \u{a7a5}\
  \u{a7a7}\
  \u{a7a9}\
  \u{26c}\
  \u{29e}\
  \u{287}\
  \u{ab53}\
  \u{a7b5}\
  \u{a7b7}\
  \u{a7b9}\
  \u{a7bb}\
  \u{a7bd}\
  \u{a7bf}\
  \u{a7c3}\
  \u{a794}\
  \u{1d8e}\
  \u{a7c8}\
  \u{a7ca}\
  \u{a7f6}\
  \u{ab37}\
  \u{ab52}\
  \u{28d}\
  \u{13a0}\
  \u{13a1}\
  \u{13a2}\
  \u{13a3}\
  \u{13a4}\
  \u{13a5}\
  \u{13a6}\
  \u{13a7}\
  \u{13a8}\
  \u{13a9}\
  \u{13aa}\
  \u{13ab}\
  \u{13ac}\
  \u{13ad}\
  \u{13ae}\
  \u{13af}\
  \u{13b0}\
  \u{13b1}\
  \u{13b2}\
  \u{13b3}\
  \u{13b4}\
  \u{13b5}\
  \u{13b6}\
  \u{13b7}\
  \u{13b8}\
  \u{13b9}\
  \u{13ba}\
  \u{13bb}\
  \u{13bc}\
  \u{13bd}\
  \u{13be}\
  \u{13bf}\
  \u{13c0}\
  \u{13c1}\
  \u{13c2}\
  \u{13c3}\
  \u{13c4}\
  \u{13c5}\
  \u{13c6}\
  \u{13c7}\
  \u{13c8}\
  \u{13c9}\
  \u{13ca}\
  \u{13cb}\
  \u{13cc}\
  \u{13cd}\
  \u{13ce}\
  \u{13cf}\
  \u{13d0}\
  \u{13d1}\
  \u{13d2}\
  \u{13d3}\
  \u{13d4}\
  \u{13d5}\
  \u{13d6}\
  \u{13d7}\
  \u{13d8}\
  \u{13d9}\
  \u{13da}\
  \u{13db}\
  \u{13dc}\
  \u{13dd}\
  \u{13de}\
  \u{13df}\
  \u{13e0}\
  \u{13e1}\
  \u{13e2}\
  \u{13e3}\
  \u{13e4}\
  \u{13e5}\
  \u{13e6}\
  \u{13e7}\
  \u{13e8}\
  \u{13e9}\
  \u{13ea}\
  \u{13eb}\
  \u{13ec}\
  \u{13ed}\
  \u{13ee}\
  \u{13ef}\
  \u{8c48}\
  \u{66f4}\
  \u{8cc8}\
  \u{6ed1}\
  \u{4e32}\
  \u{53e5}\
  \u{5951}\
  \u{5587}\
  \u{5948}\
  \u{61f6}\
  \u{7669}\
  \u{7f85}\
  \u{863f}\
  \u{87ba}\
  \u{88f8}\
  \u{908f}\
  \u{6a02}\
  \u{6d1b}\
  \u{70d9}\
  \u{73de}\
  \u{843d}\
  \u{916a}\
  \u{99f1}\
  \u{4e82}\
  \u{5375}\
  \u{6b04}\
  \u{721b}\
  \u{862d}\
  \u{9e1e}\
  \u{5d50}\
  \u{6feb}\
  \u{85cd}\
  \u{8964}\
  \u{62c9}\
  \u{81d8}\
  \u{881f}\
  \u{5eca}\
  \u{6717}\
  \u{6d6a}\
  \u{72fc}\
  \u{90ce}\
  \u{4f86}\
  \u{51b7}\
  \u{52de}\
  \u{64c4}\
  \u{6ad3}\
  \u{7210}\
  \u{76e7}\
  \u{8606}\
  \u{865c}\
  \u{8def}\
  \u{9732}\
  \u{9b6f}\
  \u{9dfa}\
  \u{788c}\
  \u{797f}\
  \u{7da0}\
  \u{83c9}\
  \u{9304}\
  \u{8ad6}\
  \u{58df}\
  \u{5f04}\
  \u{7c60}\
  \u{807e}\
  \u{7262}\
  \u{78ca}\
  \u{8cc2}\
  \u{96f7}\
  \u{58d8}\
  \u{5c62}\
  \u{6a13}\
  \u{6dda}\
  \u{6f0f}\
  \u{7d2f}\
  \u{7e37}\
  \u{964b}\
  \u{52d2}\
  \u{808b}\
  \u{51dc}\
  \u{51cc}\
  \u{7a1c}\
  \u{7dbe}\
  \u{83f1}\
  \u{9675}\
  \u{8b80}\
  \u{62cf}\
  \u{8afe}\
  \u{4e39}\
  \u{5be7}\
  \u{6012}\
  \u{7387}\
  \u{7570}\
  \u{5317}\
  \u{78fb}\
  \u{4fbf}\
  \u{5fa9}\
  \u{4e0d}\
  \u{6ccc}\
  \u{6578}\
  \u{7d22}\
  \u{53c3}\
  \u{585e}\
  \u{7701}\
  \u{8449}\
  \u{8aaa}\
  \u{6bba}\
  \u{6c88}\
  \u{62fe}\
  \u{82e5}\
  \u{63a0}\
  \u{7565}\
  \u{4eae}\
  \u{5169}\
  \u{51c9}\
  \u{6881}\
  \u{7ce7}\
  \u{826f}\
  \u{8ad2}\
  \u{91cf}\
  \u{52f5}\
  \u{5442}\
  \u{5eec}\
  \u{65c5}\
  \u{6ffe}\
  \u{792a}\
  \u{95ad}\
  \u{9a6a}\
  \u{9e97}\
  \u{9ece}\
  \u{66c6}\
  \u{6b77}\
  \u{8f62}\
  \u{5e74}\
  \u{6190}\
  \u{6200}\
  \u{649a}\
  \u{6f23}\
  \u{7149}\
  \u{7489}\
  \u{79ca}\
  \u{7df4}\
  \u{806f}\
  \u{8f26}\
  \u{84ee}\
  \u{9023}\
  \u{934a}\
  \u{5217}\
  \u{52a3}\
  \u{54bd}\
  \u{70c8}\
  \u{88c2}\
  \u{5ec9}\
  \u{5ff5}\
  \u{637b}\
  \u{6bae}\
  \u{7c3e}\
  \u{7375}\
  \u{4ee4}\
  \u{56f9}\
  \u{5dba}\
  \u{601c}\
  \u{73b2}\
  \u{7469}\
  \u{7f9a}\
  \u{8046}\
  \u{9234}\
  \u{96f6}\
  \u{9748}\
  \u{9818}\
  \u{4f8b}\
  \u{79ae}\
  \u{91b4}\
  \u{96b8}\
  \u{60e1}\
  \u{4e86}\
  \u{50da}\
  \u{5bee}\
  \u{5c3f}\
  \u{6599}\
  \u{71ce}\
  \u{7642}\
  \u{84fc}\
  \u{907c}\
  \u{6688}\
  \u{962e}\
  \u{5289}\
  \u{677b}\
  \u{67f3}\
  \u{6d41}\
  \u{6e9c}\
  \u{7409}\
  \u{7559}\
  \u{786b}\
  \u{7d10}\
  \u{985e}\
  \u{622e}\
  \u{9678}\
  \u{502b}\
  \u{5d19}\
  \u{6dea}\
  \u{8f2a}\
  \u{5f8b}\
  \u{6144}\
  \u{6817}\
  \u{9686}\
  \u{5229}\
  \u{540f}\
  \u{5c65}\
  \u{6613}\
  \u{674e}\
  \u{68a8}\
  \u{6ce5}\
  \u{7406}\
  \u{75e2}\
  \u{7f79}\
  \u{88cf}\
  \u{88e1}\
  \u{96e2}\
  \u{533f}\
  \u{6eba}\
  \u{541d}\
  \u{71d0}\
  \u{7498}\
  \u{85fa}\
  \u{96a3}\
  \u{9c57}\
  \u{9e9f}\
  \u{6797}\
  \u{6dcb}\
  \u{81e8}\
  \u{7b20}\
  \u{7c92}\
  \u{72c0}\
  \u{7099}\
  \u{8b58}\
  \u{4ec0}\
  \u{8336}\
  \u{523a}\
  \u{5207}\
  \u{5ea6}\
  \u{62d3}\
  \u{7cd6}\
  \u{5b85}\
  \u{6d1e}\
  \u{66b4}\
  \u{8f3b}\
  \u{964d}\
  \u{5ed3}\
  \u{5140}\
  \u{55c0}\
  \u{585a}\
  \u{6674}\
  \u{51de}\
  \u{732a}\
  \u{76ca}\
  \u{793c}\
  \u{795e}\
  \u{7965}\
  \u{798f}\
  \u{9756}\
  \u{7cbe}\
  \u{8612}\
  \u{8af8}\
  \u{9038}\
  \u{90fd}\
  \u{98ef}\
  \u{98fc}\
  \u{9928}\
  \u{9db4}\
  \u{90de}\
  \u{96b7}\
  \u{4fae}\
  \u{50e7}\
  \u{514d}\
  \u{52c9}\
  \u{52e4}\
  \u{5351}\
  \u{559d}\
  \u{5606}\
  \u{5668}\
  \u{5840}\
  \u{58a8}\
  \u{5c64}\
  \u{6094}\
  \u{6168}\
  \u{618e}\
  \u{61f2}\
  \u{654f}\
  \u{65e2}\
  \u{6691}\
  \u{6885}\
  \u{6d77}\
  \u{6e1a}\
  \u{6f22}\
  \u{716e}\
  \u{722b}\
  \u{7422}\
  \u{7891}\
  \u{7949}\
  \u{7948}\
  \u{7950}\
  \u{7956}\
  \u{798d}\
  \u{798e}\
  \u{7a40}\
  \u{7a81}\
  \u{7bc0}\
  \u{7e09}\
  \u{7e41}\
  \u{7f72}\
  \u{8005}\
  \u{81ed}\
  \u{8279}\
  \u{8457}\
  \u{8910}\
  \u{8996}\
  \u{8b01}\
  \u{8b39}\
  \u{8cd3}\
  \u{8d08}\
  \u{8fb6}\
  \u{96e3}\
  \u{97ff}\
  \u{983b}\
  \u{6075}\
  \u{242ee}\
  \u{8218}\
  \u{4e26}\
  \u{51b5}\
  \u{5168}\
  \u{4f80}\
  \u{5145}\
  \u{5180}\
  \u{52c7}\
  \u{52fa}\
  \u{5555}\
  \u{5599}\
  \u{55e2}\
  \u{58b3}\
  \u{5944}\
  \u{5954}\
  \u{5a62}\
  \u{5b28}\
  \u{5ed2}\
  \u{5ed9}\
  \u{5f69}\
  \u{5fad}\
  \u{60d8}\
  \u{614e}\
  \u{6108}\
  \u{6160}\
  \u{6234}\
  \u{63c4}\
  \u{641c}\
  \u{6452}\
  \u{6556}\
  \u{671b}\
  \u{6756}\
  \u{6edb}\
  \u{6ecb}\
  \u{701e}\
  \u{77a7}\
  \u{7235}\
  \u{72af}\
  \u{7471}\
  \u{7506}\
  \u{753b}\
  \u{761d}\
  \u{761f}\
  \u{76db}\
  \u{76f4}\
  \u{774a}\
  \u{7740}\
  \u{78cc}\
  \u{7ab1}\
  \u{7c7b}\
  \u{7d5b}\
  \u{7f3e}\
  \u{8352}\
  \u{83ef}\
  \u{8779}\
  \u{8941}\
  \u{8986}\
  \u{8abf}\
  \u{8acb}\
  \u{8aed}\
  \u{8b8a}\
  \u{8f38}\
  \u{9072}\
  \u{9199}\
  \u{9276}\
  \u{967c}\
  \u{97db}\
  \u{980b}\
  \u{9b12}\
  \u{2284a}\
  \u{22844}\
  \u{233d5}\
  \u{3b9d}\
  \u{4018}\
  \u{4039}\
  \u{25249}\
  \u{25cd0}\
  \u{27ed3}\
  \u{9f43}\
  \u{9f8e}\
  \u{66}\
  \u{66}\
  \u{66}\
  \u{69}\
  \u{66}\
  \u{6c}\
  \u{66}\
  \u{66}\
  \u{69}\
  \u{66}\
  \u{66}\
  \u{6c}\
  \u{73}\
  \u{74}\
  \u{574}\
  \u{576}\
  \u{574}\
  \u{565}\
  \u{574}\
  \u{56b}\
  \u{57e}\
  \u{576}\
  \u{574}\
  \u{56d}\
  \u{5d9}\
  \u{5b4}\
  \u{5f2}\
  \u{5b7}\
  \u{5e2}\
  \u{5d4}\
  \u{5db}\
  \u{5dc}\
  \u{5dd}\
  \u{5e8}\
  \u{5ea}\
  \u{5e9}\
  \u{5c1}\
  \u{5e9}\
  \u{5c2}\
  \u{5e9}\
  \u{5bc}\
  \u{5c1}\
  \u{5e9}\
  \u{5bc}\
  \u{5c2}\
  \u{5d0}\
  \u{5b7}\
  \u{5d0}\
  \u{5b8}\
  \u{5d0}\
  \u{5bc}\
  \u{5d1}\
  \u{5bc}\
  \u{5d2}\
  \u{5bc}\
  \u{5d3}\
  \u{5bc}\
  \u{5d4}\
  \u{5bc}\
  \u{5d5}\
  \u{5bc}\
  \u{5d6}\
  \u{5bc}\
  \u{5d8}\
  \u{5bc}\
  \u{5d9}\
  \u{5bc}\
  \u{5da}\
  \u{5bc}\
  \u{5db}\
  \u{5bc}\
  \u{5dc}\
  \u{5bc}\
  \u{5de}\
  \u{5bc}\
  \u{5e0}\
  \u{5bc}\
  \u{5e1}\
  \u{5bc}\
  \u{5e3}\
  \u{5bc}\
  \u{5e4}\
  \u{5bc}\
  \u{5e6}\
  \u{5bc}\
  \u{5e7}\
  \u{5bc}\
  \u{5e8}\
  \u{5bc}\
  \u{5e9}\
  \u{5bc}\
  \u{5ea}\
  \u{5bc}\
  \u{5d5}\
  \u{5b9}\
  \u{5d1}\
  \u{5bf}\
  \u{5db}\
  \u{5bf}\
  \u{5e4}\
  \u{5bf}\
  \u{5d0}\
  \u{5dc}\
  \u{671}\
  \u{67b}\
  \u{67e}\
  \u{680}\
  \u{67a}\
  \u{67f}\
  \u{679}\
  \u{6a4}\
  \u{6a6}\
  \u{684}\
  \u{683}\
  \u{686}\
  \u{687}\
  \u{68d}\
  \u{68c}\
  \u{68e}\
  \u{688}\
  \u{698}\
  \u{691}\
  \u{6a9}\
  \u{6af}\
  \u{6b3}\
  \u{6b1}\
  \u{6ba}\
  \u{6bb}\
  \u{6c0}\
  \u{6c1}\
  \u{6be}\
  \u{6d2}\
  \u{6d3}\
  \u{6ad}\
  \u{6c7}\
  \u{6c6}\
  \u{6c8}\
  \u{6cb}\
  \u{6c5}\
  \u{6c9}\
  \u{6d0}\
  \u{649}\
  \u{626}\
  \u{627}\
  \u{626}\
  \u{6d5}\
  \u{626}\
  \u{648}\
  \u{626}\
  \u{6c7}\
  \u{626}\
  \u{6c6}\
  \u{626}\
  \u{6c8}\
  \u{626}\
  \u{6d0}\
  \u{626}\
  \u{649}\
  \u{6cc}\
  \u{626}\
  \u{62c}\
  \u{626}\
  \u{62d}\
  \u{626}\
  \u{645}\
  \u{626}\
  \u{64a}\
  \u{628}\
  \u{62c}\
  \u{628}\
  \u{62d}\
  \u{628}\
  \u{62e}\
  \u{628}\
  \u{645}\
  \u{628}\
  \u{649}\
  \u{628}\
  \u{64a}\
  \u{62a}\
  \u{62c}\
  \u{62a}\
  \u{62d}\
  \u{62a}\
  \u{62e}\
  \u{62a}\
  \u{645}\
  \u{62a}\
  \u{649}\
  \u{62a}\
  \u{64a}\
  \u{62b}\
  \u{62c}\
  \u{62b}\
  \u{645}\
  \u{62b}\
  \u{649}\
  \u{62b}\
  \u{64a}\
  \u{62c}\
  \u{62d}\
  \u{62c}\
  \u{645}\
  \u{62d}\
  \u{62c}\
  \u{62d}\
  \u{645}\
  \u{62e}\
  \u{62c}\
  \u{62e}\
  \u{62d}\
  \u{62e}\
  \u{645}\
  \u{633}\
  \u{62c}\
  \u{633}\
  \u{62d}\
  \u{633}\
  \u{62e}\
  \u{633}\
  \u{645}\
  \u{635}\
  \u{62d}\
  \u{635}\
  \u{645}\
  \u{636}\
  \u{62c}\
  \u{636}\
  \u{62d}\
  \u{636}\
  \u{62e}\
  \u{636}\
  \u{645}\
  \u{637}\
  \u{62d}\
  \u{637}\
  \u{645}\
  \u{638}\
  \u{645}\
  \u{639}\
  \u{62c}\
  \u{639}\
  \u{645}\
  \u{63a}\
  \u{62c}\
  \u{63a}\
  \u{645}\
  \u{641}\
  \u{62c}\
  \u{641}\
  \u{62d}\
  \u{641}\
  \u{62e}\
  \u{641}\
  \u{645}\
  \u{641}\
  \u{649}\
  \u{641}\
  \u{64a}\
  \u{642}\
  \u{62d}\
  \u{642}\
  \u{645}\
  \u{642}\
  \u{649}\
  \u{642}\
  \u{64a}\
  \u{643}\
  \u{627}\
  \u{643}\
  \u{62c}\
  \u{643}\
  \u{62d}\
  \u{643}\
  \u{62e}\
  \u{643}\
  \u{644}\
  \u{643}\
  \u{645}\
  \u{643}\
  \u{649}\
  \u{643}\
  \u{64a}\
  \u{644}\
  \u{62c}\
  \u{644}\
  \u{62d}\
  \u{644}\
  \u{62e}\
  \u{644}\
  \u{645}\
  \u{644}\
  \u{649}\
  \u{644}\
  \u{64a}\
  \u{645}\
  \u{62c}\
  \u{645}\
  \u{62d}\
  \u{645}\
  \u{62e}\
  \u{645}\
  \u{645}\
  \u{645}\
  \u{649}\
  \u{645}\
  \u{64a}\
  \u{646}\
  \u{62c}\
  \u{646}\
  \u{62d}\
  \u{646}\
  \u{62e}\
  \u{646}\
  \u{645}\
  \u{646}\
  \u{649}\
  \u{646}\
  \u{64a}\
  \u{647}\
  \u{62c}\
  \u{647}\
  \u{645}\
  \u{647}\
  \u{649}\
  \u{647}\
  \u{64a}\
  \u{64a}\
  \u{62c}\
  \u{64a}\
  \u{62d}\
  \u{64a}\
  \u{62e}\
  \u{64a}\
  \u{645}\
  \u{64a}\
  \u{649}\
  \u{64a}\
  \u{64a}\
  \u{630}\
  \u{670}\
  \u{631}\
  \u{670}\
  \u{649}\
  \u{670}\
  \u{20}\
  \u{64c}\
  \u{651}\
  \u{20}\
  \u{64d}\
  \u{651}\
  \u{20}\
  \u{64e}\
  \u{651}\
  \u{20}\
  \u{64f}\
  \u{651}\
  \u{20}\
  \u{650}\
  \u{651}\
  \u{20}\
  \u{651}\
  \u{670}\
  \u{626}\
  \u{631}\
  \u{626}\
  \u{632}\
  \u{626}\
  \u{646}\
  \u{628}\
  \u{631}\
  \u{628}\
  \u{632}\
  \u{628}\
  \u{646}\
  \u{62a}\
  \u{631}\
  \u{62a}\
  \u{632}\
  \u{62a}\
  \u{646}\
  \u{62b}\
  \u{631}\
  \u{62b}\
  \u{632}\
  \u{62b}\
  \u{646}\
  \u{645}\
  \u{627}\
  \u{646}\
  \u{631}\
  \u{646}\
  \u{632}\
  \u{646}\
  \u{646}\
  \u{64a}\
  \u{631}\
  \u{64a}\
  \u{632}\
  \u{64a}\
  \u{646}\
  \u{626}\
  \u{62e}\
  \u{626}\
  \u{647}\
  \u{628}\
  \u{647}\
  \u{62a}\
  \u{647}\
  \u{635}\
  \u{62e}\
  \u{644}\
  \u{647}\
  \u{646}\
  \u{647}\
  \u{647}\
  \u{670}\
  \u{64a}\
  \u{647}\
  \u{62b}\
  \u{647}\
  \u{633}\
  \u{647}\
  \u{634}\
  \u{645}\
  \u{634}\
  \u{647}\
  \u{640}\
  \u{64e}\
  \u{651}\
  \u{640}\
  \u{64f}\
  \u{651}\
  \u{640}\
  \u{650}\
  \u{651}\
  \u{637}\
  \u{649}\
  \u{637}\
  \u{64a}\
  \u{639}\
  \u{649}\
  \u{639}\
  \u{64a}\
  \u{63a}\
  \u{649}\
  \u{63a}\
  \u{64a}\
  \u{633}\
  \u{649}\
  \u{633}\
  \u{64a}\
  \u{634}\
  \u{649}\
  \u{634}\
  \u{64a}\
  \u{62d}\
  \u{649}\
  \u{62d}\
  \u{64a}\
  \u{62c}\
  \u{649}\
  \u{62c}\
  \u{64a}\
  \u{62e}\
  \u{649}\
  \u{62e}\
  \u{64a}\
  \u{635}\
  \u{649}\
  \u{635}\
  \u{64a}\
  \u{636}\
  \u{649}\
  \u{636}\
  \u{64a}\
  \u{634}\
  \u{62c}\
  \u{634}\
  \u{62d}\
  \u{634}\
  \u{62e}\
  \u{634}\
  \u{631}\
  \u{633}\
  \u{631}\
  \u{635}\
  \u{631}\
  \u{636}\
  \u{631}\
  \u{627}\
  \u{64b}\
  \u{62a}\
  \u{62c}\
  \u{645}\
  \u{62a}\
  \u{62d}\
  \u{62c}\
  \u{62a}\
  \u{62d}\
  \u{645}\
  \u{62a}\
  \u{62e}\
  \u{645}\
  \u{62a}\
  \u{645}\
  \u{62c}\
  \u{62a}\
  \u{645}\
  \u{62d}\
  \u{62a}\
  \u{645}\
  \u{62e}\
  \u{62c}\
  \u{645}\
  \u{62d}\
  \u{62d}\
  \u{645}\
  \u{64a}\
  \u{62d}\
  \u{645}\
  \u{649}\
  \u{633}\
  \u{62d}\
  \u{62c}\
  \u{633}\
  \u{62c}\
  \u{62d}\
  \u{633}\
  \u{62c}\
  \u{649}\
  \u{633}\
  \u{645}\
  \u{62d}\
  \u{633}\
  \u{645}\
  \u{62c}\
  \u{633}\
  \u{645}\
  \u{645}\
  \u{635}\
  \u{62d}\
  \u{62d}\
  \u{635}\
  \u{645}\
  \u{645}\
  \u{634}\
  \u{62d}\
  \u{645}\
  \u{634}\
  \u{62c}\
  \u{64a}\
  \u{634}\
  \u{645}\
  \u{62e}\
  \u{634}\
  \u{645}\
  \u{645}\
  \u{636}\
  \u{62d}\
  \u{649}\
  \u{636}\
  \u{62e}\
  \u{645}\
  \u{637}\
  \u{645}\
  \u{62d}\
  \u{637}\
  \u{645}\
  \u{645}\
  \u{637}\
  \u{645}\
  \u{64a}\
  \u{639}\
  \u{62c}\
  \u{645}\
  \u{639}\
  \u{645}\
  \u{645}\
  \u{639}\
  \u{645}\
  \u{649}\
  \u{63a}\
  \u{645}\
  \u{645}\
  \u{63a}\
  \u{645}\
  \u{64a}\
  \u{63a}\
  \u{645}\
  \u{649}\
  \u{641}\
  \u{62e}\
  \u{645}\
  \u{642}\
  \u{645}\
  \u{62d}\
  \u{642}\
  \u{645}\
  \u{645}\
  \u{644}\
  \u{62d}\
  \u{645}\
  \u{644}\
  \u{62d}\
  \u{64a}\
  \u{644}\
  \u{62d}\
  \u{649}\
  \u{644}\
  \u{62c}\
  \u{62c}\
  \u{644}\
  \u{62e}\
  \u{645}\
  \u{644}\
  \u{645}\
  \u{62d}\
  \u{645}\
  \u{62d}\
  \u{62c}\
  \u{645}\
  \u{62d}\
  \u{645}\
  \u{645}\
  \u{62d}\
  \u{64a}\
  \u{645}\
  \u{62c}\
  \u{62d}\
  \u{645}\
  \u{62c}\
  \u{645}\
  \u{645}\
  \u{62e}\
  \u{62c}\
  \u{645}\
  \u{62e}\
  \u{645}\
  \u{645}\
  \u{62c}\
  \u{62e}\
  \u{647}\
  \u{645}\
  \u{62c}\
  \u{647}\
  \u{645}\
  \u{645}\
  \u{646}\
  \u{62d}\
  \u{645}\
  \u{646}\
  \u{62d}\
  \u{649}\
  \u{646}\
  \u{62c}\
  \u{645}\
  \u{646}\
  \u{62c}\
  \u{649}\
  \u{646}\
  \u{645}\
  \u{64a}\
  \u{646}\
  \u{645}\
  \u{649}\
  \u{64a}\
  \u{645}\
  \u{645}\
  \u{628}\
  \u{62e}\
  \u{64a}\
  \u{62a}\
  \u{62c}\
  \u{64a}\
  \u{62a}\
  \u{62c}\
  \u{649}\
  \u{62a}\
  \u{62e}\
  \u{64a}\
  \u{62a}\
  \u{62e}\
  \u{649}\
  \u{62a}\
  \u{645}\
  \u{64a}\
  \u{62a}\
  \u{645}\
  \u{649}\
  \u{62c}\
  \u{645}\
  \u{64a}\
  \u{62c}\
  \u{62d}\
  \u{649}\
  \u{62c}\
  \u{645}\
  \u{649}\
  \u{633}\
  \u{62e}\
  \u{649}\
  \u{635}\
  \u{62d}\
  \u{64a}\
  \u{634}\
  \u{62d}\
  \u{64a}\
  \u{636}\
  \u{62d}\
  \u{64a}\
  \u{644}\
  \u{62c}\
  \u{64a}\
  \u{644}\
  \u{645}\
  \u{64a}\
  \u{64a}\
  \u{62d}\
  \u{64a}\
  \u{64a}\
  \u{62c}\
  \u{64a}\
  \u{64a}\
  \u{645}\
  \u{64a}\
  \u{645}\
  \u{645}\
  \u{64a}\
  \u{642}\
  \u{645}\
  \u{64a}\
  \u{646}\
  \u{62d}\
  \u{64a}\
  \u{639}\
  \u{645}\
  \u{64a}\
  \u{643}\
  \u{645}\
  \u{64a}\
  \u{646}\
  \u{62c}\
  \u{62d}\
  \u{645}\
  \u{62e}\
  \u{64a}\
  \u{644}\
  \u{62c}\
  \u{645}\
  \u{643}\
  \u{645}\
  \u{645}\
  \u{62c}\
  \u{62d}\
  \u{64a}\
  \u{62d}\
  \u{62c}\
  \u{64a}\
  \u{645}\
  \u{62c}\
  \u{64a}\
  \u{641}\
  \u{645}\
  \u{64a}\
  \u{628}\
  \u{62d}\
  \u{64a}\
  \u{633}\
  \u{62e}\
  \u{64a}\
  \u{646}\
  \u{62c}\
  \u{64a}\
  \u{635}\
  \u{644}\
  \u{6d2}\
  \u{642}\
  \u{644}\
  \u{6d2}\
  \u{627}\
  \u{644}\
  \u{644}\
  \u{647}\
  \u{627}\
  \u{643}\
  \u{628}\
  \u{631}\
  \u{645}\
  \u{62d}\
  \u{645}\
  \u{62f}\
  \u{635}\
  \u{644}\
  \u{639}\
  \u{645}\
  \u{631}\
  \u{633}\
  \u{648}\
  \u{644}\
  \u{639}\
  \u{644}\
  \u{64a}\
  \u{647}\
  \u{648}\
  \u{633}\
  \u{644}\
  \u{645}\
  \u{635}\
  \u{644}\
  \u{649}\
  \u{635}\
  \u{644}\
  \u{649}\
  \u{20}\
  \u{627}\
  \u{644}\
  \u{644}\
  \u{647}\
  \u{20}\
  \u{639}\
  \u{644}\
  \u{64a}\
  \u{647}\
  \u{20}\
  \u{648}\
  \u{633}\
  \u{644}\
  \u{645}\
  \u{62c}\
  \u{644}\
  \u{20}\
  \u{62c}\
  \u{644}\
  \u{627}\
  \u{644}\
  \u{647}\
  \u{631}\
  \u{6cc}\
  \u{627}\
  \u{644}\
  \u{2c}\
  \u{3001}\
  \u{3a}\
  \u{21}\
  \u{3f}\
  \u{3016}\
  \u{3017}\
  \u{2014}\
  \u{2013}\
  \u{5f}\
  \u{7b}\
  \u{7d}\
  \u{3014}\
  \u{3015}\
  \u{3010}\
  \u{3011}\
  \u{300a}\
  \u{300b}\
  \u{300c}\
  \u{300d}\
  \u{300e}\
  \u{300f}\
  \u{5b}\
  \u{5d}\
  \u{23}\
  \u{26}\
  \u{2a}\
  \u{2d}\
  \u{3c}\
  \u{3e}\
  \u{5c}\
  \u{24}\
  \u{25}\
  \u{40}\
  \u{20}\
  \u{64b}\
  \u{640}\
  \u{64b}\
  \u{20}\
  \u{64c}\
  \u{20}\
  \u{64d}\
  \u{20}\
  \u{64e}\
  \u{640}\
  \u{64e}\
  \u{20}\
  \u{64f}\
  \u{640}\
  \u{64f}\
  \u{20}\
  \u{650}\
  \u{640}\
  \u{650}\
  \u{20}\
  \u{651}\
  \u{640}\
  \u{651}\
  \u{20}\
  \u{652}\
  \u{640}\
  \u{652}\
  \u{621}\
  \u{622}\
  \u{623}\
  \u{624}\
  \u{625}\
  \u{626}\
  \u{627}\
  \u{628}\
  \u{629}\
  \u{62a}\
  \u{62b}\
  \u{62c}\
  \u{62d}\
  \u{62e}\
  \u{62f}\
  \u{630}\
  \u{631}\
  \u{632}\
  \u{633}\
  \u{634}\
  \u{635}\
  \u{636}\
  \u{637}\
  \u{638}\
  \u{639}\
  \u{63a}\
  \u{641}\
  \u{642}\
  \u{643}\
  \u{644}\
  \u{645}\
  \u{646}\
  \u{647}\
  \u{648}\
  \u{64a}\
  \u{644}\
  \u{622}\
  \u{644}\
  \u{623}\
  \u{644}\
  \u{625}\
  \u{644}\
  \u{627}\
  \u{22}\
  \u{27}\
  \u{2f}\
  \u{5e}\
  \u{7c}\
  \u{7e}\
  \u{2985}\
  \u{2986}\
  \u{30fb}\
  \u{30a1}\
  \u{30a3}\
  \u{30a5}\
  \u{30a7}\
  \u{30a9}\
  \u{30e3}\
  \u{30e5}\
  \u{30e7}\
  \u{30c3}\
  \u{30fc}\
  \u{30f3}\
  \u{3099}\
  \u{309a}\
  \u{a2}\
  \u{a3}\
  \u{ac}\
  \u{a6}\
  \u{a5}\
  \u{20a9}\
  \u{2502}\
  \u{2190}\
  \u{2191}\
  \u{2192}\
  \u{2193}\
  \u{25a0}\
  \u{25cb}\
  \u{10428}\
  \u{10429}\
  \u{1042a}\
  \u{1042b}\
  \u{1042c}\
  \u{1042d}\
  \u{1042e}\
  \u{1042f}\
  \u{10430}\
  \u{10431}\
  \u{10432}\
  \u{10433}\
  \u{10434}\
  \u{10435}\
  \u{10436}\
  \u{10437}\
  \u{10438}\
  \u{10439}\
  \u{1043a}\
  \u{1043b}\
  \u{1043c}\
  \u{1043d}\
  \u{1043e}\
  \u{1043f}\
  \u{10440}\
  \u{10441}\
  \u{10442}\
  \u{10443}\
  \u{10444}\
  \u{10445}\
  \u{10446}\
  \u{10447}\
  \u{10448}\
  \u{10449}\
  \u{1044a}\
  \u{1044b}\
  \u{1044c}\
  \u{1044d}\
  \u{1044e}\
  \u{1044f}\
  \u{104d8}\
  \u{104d9}\
  \u{104da}\
  \u{104db}\
  \u{104dc}\
  \u{104dd}\
  \u{104de}\
  \u{104df}\
  \u{104e0}\
  \u{104e1}\
  \u{104e2}\
  \u{104e3}\
  \u{104e4}\
  \u{104e5}\
  \u{104e6}\
  \u{104e7}\
  \u{104e8}\
  \u{104e9}\
  \u{104ea}\
  \u{104eb}\
  \u{104ec}\
  \u{104ed}\
  \u{104ee}\
  \u{104ef}\
  \u{104f0}\
  \u{104f1}\
  \u{104f2}\
  \u{104f3}\
  \u{104f4}\
  \u{104f5}\
  \u{104f6}\
  \u{104f7}\
  \u{104f8}\
  \u{104f9}\
  \u{104fa}\
  \u{104fb}\
  \u{10cc0}\
  \u{10cc1}\
  \u{10cc2}\
  \u{10cc3}\
  \u{10cc4}\
  \u{10cc5}\
  \u{10cc6}\
  \u{10cc7}\
  \u{10cc8}\
  \u{10cc9}\
  \u{10cca}\
  \u{10ccb}\
  \u{10ccc}\
  \u{10ccd}\
  \u{10cce}\
  \u{10ccf}\
  \u{10cd0}\
  \u{10cd1}\
  \u{10cd2}\
  \u{10cd3}\
  \u{10cd4}\
  \u{10cd5}\
  \u{10cd6}\
  \u{10cd7}\
  \u{10cd8}\
  \u{10cd9}\
  \u{10cda}\
  \u{10cdb}\
  \u{10cdc}\
  \u{10cdd}\
  \u{10cde}\
  \u{10cdf}\
  \u{10ce0}\
  \u{10ce1}\
  \u{10ce2}\
  \u{10ce3}\
  \u{10ce4}\
  \u{10ce5}\
  \u{10ce6}\
  \u{10ce7}\
  \u{10ce8}\
  \u{10ce9}\
  \u{10cea}\
  \u{10ceb}\
  \u{10cec}\
  \u{10ced}\
  \u{10cee}\
  \u{10cef}\
  \u{10cf0}\
  \u{10cf1}\
  \u{10cf2}\
  \u{118c0}\
  \u{118c1}\
  \u{118c2}\
  \u{118c3}\
  \u{118c4}\
  \u{118c5}\
  \u{118c6}\
  \u{118c7}\
  \u{118c8}\
  \u{118c9}\
  \u{118ca}\
  \u{118cb}\
  \u{118cc}\
  \u{118cd}\
  \u{118ce}\
  \u{118cf}\
  \u{118d0}\
  \u{118d1}\
  \u{118d2}\
  \u{118d3}\
  \u{118d4}\
  \u{118d5}\
  \u{118d6}\
  \u{118d7}\
  \u{118d8}\
  \u{118d9}\
  \u{118da}\
  \u{118db}\
  \u{118dc}\
  \u{118dd}\
  \u{118de}\
  \u{118df}\
  \u{16e60}\
  \u{16e61}\
  \u{16e62}\
  \u{16e63}\
  \u{16e64}\
  \u{16e65}\
  \u{16e66}\
  \u{16e67}\
  \u{16e68}\
  \u{16e69}\
  \u{16e6a}\
  \u{16e6b}\
  \u{16e6c}\
  \u{16e6d}\
  \u{16e6e}\
  \u{16e6f}\
  \u{16e70}\
  \u{16e71}\
  \u{16e72}\
  \u{16e73}\
  \u{16e74}\
  \u{16e75}\
  \u{16e76}\
  \u{16e77}\
  \u{16e78}\
  \u{16e79}\
  \u{16e7a}\
  \u{16e7b}\
  \u{16e7c}\
  \u{16e7d}\
  \u{16e7e}\
  \u{16e7f}\
  \u{1d157}\
  \u{1d165}\
  \u{1d158}\
  \u{1d165}\
  \u{1d158}\
  \u{1d165}\
  \u{1d16e}\
  \u{1d158}\
  \u{1d165}\
  \u{1d16f}\
  \u{1d158}\
  \u{1d165}\
  \u{1d170}\
  \u{1d158}\
  \u{1d165}\
  \u{1d171}\
  \u{1d158}\
  \u{1d165}\
  \u{1d172}\
  \u{1d1b9}\
  \u{1d165}\
  \u{1d1ba}\
  \u{1d165}\
  \u{1d1b9}\
  \u{1d165}\
  \u{1d16e}\
  \u{1d1ba}\
  \u{1d165}\
  \u{1d16e}\
  \u{1d1b9}\
  \u{1d165}\
  \u{1d16f}\
  \u{1d1ba}\
  \u{1d165}\
  \u{1d16f}\
  \u{131}\
  \u{237}\
  \u{2207}\
  \u{2202}\
  \u{1e922}\
  \u{1e923}\
  \u{1e924}\
  \u{1e925}\
  \u{1e926}\
  \u{1e927}\
  \u{1e928}\
  \u{1e929}\
  \u{1e92a}\
  \u{1e92b}\
  \u{1e92c}\
  \u{1e92d}\
  \u{1e92e}\
  \u{1e92f}\
  \u{1e930}\
  \u{1e931}\
  \u{1e932}\
  \u{1e933}\
  \u{1e934}\
  \u{1e935}\
  \u{1e936}\
  \u{1e937}\
  \u{1e938}\
  \u{1e939}\
  \u{1e93a}\
  \u{1e93b}\
  \u{1e93c}\
  \u{1e93d}\
  \u{1e93e}\
  \u{1e93f}\
  \u{1e940}\
  \u{1e941}\
  \u{1e942}\
  \u{1e943}\
  \u{66e}\
  \u{6a1}\
  \u{66f}\
  \u{30}\
  \u{2c}\
  \u{31}\
  \u{2c}\
  \u{32}\
  \u{2c}\
  \u{33}\
  \u{2c}\
  \u{34}\
  \u{2c}\
  \u{35}\
  \u{2c}\
  \u{36}\
  \u{2c}\
  \u{37}\
  \u{2c}\
  \u{38}\
  \u{2c}\
  \u{39}\
  \u{2c}\
  \u{3014}\
  \u{73}\
  \u{3015}\
  \u{77}\
  \u{7a}\
  \u{68}\
  \u{76}\
  \u{73}\
  \u{64}\
  \u{70}\
  \u{70}\
  \u{76}\
  \u{77}\
  \u{63}\
  \u{6d}\
  \u{63}\
  \u{6d}\
  \u{64}\
  \u{6d}\
  \u{72}\
  \u{64}\
  \u{6a}\
  \u{307b}\
  \u{304b}\
  \u{30b3}\
  \u{30b3}\
  \u{5b57}\
  \u{53cc}\
  \u{30c7}\
  \u{591a}\
  \u{89e3}\
  \u{4ea4}\
  \u{6620}\
  \u{7121}\
  \u{524d}\
  \u{5f8c}\
  \u{518d}\
  \u{65b0}\
  \u{521d}\
  \u{7d42}\
  \u{8ca9}\
  \u{58f0}\
  \u{5439}\
  \u{6f14}\
  \u{6295}\
  \u{6355}\
  \u{904a}\
  \u{6307}\
  \u{6253}\
  \u{7981}\
  \u{7a7a}\
  \u{5408}\
  \u{6e80}\
  \u{7533}\
  \u{5272}\
  \u{55b6}\
  \u{914d}\
  \u{3014}\
  \u{672c}\
  \u{3015}\
  \u{3014}\
  \u{4e09}\
  \u{3015}\
  \u{3014}\
  \u{4e8c}\
  \u{3015}\
  \u{3014}\
  \u{5b89}\
  \u{3015}\
  \u{3014}\
  \u{70b9}\
  \u{3015}\
  \u{3014}\
  \u{6253}\
  \u{3015}\
  \u{3014}\
  \u{76d7}\
  \u{3015}\
  \u{3014}\
  \u{52dd}\
  \u{3015}\
  \u{3014}\
  \u{6557}\
  \u{3015}\
  \u{5f97}\
  \u{53ef}\
  \u{4e3d}\
  \u{4e38}\
  \u{4e41}\
  \u{20122}\
  \u{4f60}\
  \u{4fbb}\
  \u{5002}\
  \u{507a}\
  \u{5099}\
  \u{50cf}\
  \u{349e}\
  \u{2063a}\
  \u{5154}\
  \u{5164}\
  \u{5177}\
  \u{2051c}\
  \u{34b9}\
  \u{5167}\
  \u{2054b}\
  \u{5197}\
  \u{51a4}\
  \u{4ecc}\
  \u{51ac}\
  \u{291df}\
  \u{5203}\
  \u{34df}\
  \u{523b}\
  \u{5246}\
  \u{5277}\
  \u{3515}\
  \u{5305}\
  \u{5306}\
  \u{5349}\
  \u{535a}\
  \u{5373}\
  \u{537d}\
  \u{537f}\
  \u{20a2c}\
  \u{7070}\
  \u{53ca}\
  \u{53df}\
  \u{20b63}\
  \u{53eb}\
  \u{53f1}\
  \u{5406}\
  \u{549e}\
  \u{5438}\
  \u{5448}\
  \u{5468}\
  \u{54a2}\
  \u{54f6}\
  \u{5510}\
  \u{5553}\
  \u{5563}\
  \u{5584}\
  \u{55ab}\
  \u{55b3}\
  \u{55c2}\
  \u{5716}\
  \u{5717}\
  \u{5651}\
  \u{5674}\
  \u{58ee}\
  \u{57ce}\
  \u{57f4}\
  \u{580d}\
  \u{578b}\
  \u{5832}\
  \u{5831}\
  \u{58ac}\
  \u{214e4}\
  \u{58f2}\
  \u{58f7}\
  \u{5906}\
  \u{5922}\
  \u{5962}\
  \u{216a8}\
  \u{216ea}\
  \u{59ec}\
  \u{5a1b}\
  \u{5a27}\
  \u{59d8}\
  \u{5a66}\
  \u{36ee}\
  \u{5b08}\
  \u{5b3e}\
  \u{219c8}\
  \u{5bc3}\
  \u{5bd8}\
  \u{5bf3}\
  \u{21b18}\
  \u{5bff}\
  \u{5c06}\
  \u{3781}\
  \u{5c60}\
  \u{5cc0}\
  \u{5c8d}\
  \u{21de4}\
  \u{5d43}\
  \u{21de6}\
  \u{5d6e}\
  \u{5d6b}\
  \u{5d7c}\
  \u{5de1}\
  \u{5de2}\
  \u{382f}\
  \u{5dfd}\
  \u{5e28}\
  \u{5e3d}\
  \u{5e69}\
  \u{3862}\
  \u{22183}\
  \u{387c}\
  \u{5eb0}\
  \u{5eb3}\
  \u{5eb6}\
  \u{2a392}\
  \u{22331}\
  \u{8201}\
  \u{5f22}\
  \u{38c7}\
  \u{232b8}\
  \u{261da}\
  \u{5f62}\
  \u{5f6b}\
  \u{38e3}\
  \u{5f9a}\
  \u{5fcd}\
  \u{5fd7}\
  \u{5ff9}\
  \u{6081}\
  \u{393a}\
  \u{391c}\
  \u{226d4}\
  \u{60c7}\
  \u{6148}\
  \u{614c}\
  \u{617a}\
  \u{61b2}\
  \u{61a4}\
  \u{61af}\
  \u{61de}\
  \u{6210}\
  \u{621b}\
  \u{625d}\
  \u{62b1}\
  \u{62d4}\
  \u{6350}\
  \u{22b0c}\
  \u{633d}\
  \u{62fc}\
  \u{6368}\
  \u{6383}\
  \u{63e4}\
  \u{22bf1}\
  \u{6422}\
  \u{63c5}\
  \u{63a9}\
  \u{3a2e}\
  \u{6469}\
  \u{647e}\
  \u{649d}\
  \u{6477}\
  \u{3a6c}\
  \u{656c}\
  \u{2300a}\
  \u{65e3}\
  \u{66f8}\
  \u{6649}\
  \u{3b19}\
  \u{3b08}\
  \u{3ae4}\
  \u{5192}\
  \u{5195}\
  \u{6700}\
  \u{669c}\
  \u{80ad}\
  \u{43d9}\
  \u{6721}\
  \u{675e}\
  \u{6753}\
  \u{233c3}\
  \u{3b49}\
  \u{67fa}\
  \u{6785}\
  \u{6852}\
  \u{2346d}\
  \u{688e}\
  \u{681f}\
  \u{6914}\
  \u{6942}\
  \u{69a3}\
  \u{69ea}\
  \u{6aa8}\
  \u{236a3}\
  \u{6adb}\
  \u{3c18}\
  \u{6b21}\
  \u{238a7}\
  \u{6b54}\
  \u{3c4e}\
  \u{6b72}\
  \u{6b9f}\
  \u{6bbb}\
  \u{23a8d}\
  \u{21d0b}\
  \u{23afa}\
  \u{6c4e}\
  \u{23cbc}\
  \u{6cbf}\
  \u{6ccd}\
  \u{6c67}\
  \u{6d16}\
  \u{6d3e}\
  \u{6d69}\
  \u{6d78}\
  \u{6d85}\
  \u{23d1e}\
  \u{6d34}\
  \u{6e2f}\
  \u{6e6e}\
  \u{3d33}\
  \u{6ec7}\
  \u{23ed1}\
  \u{6df9}\
  \u{6f6e}\
  \u{23f5e}\
  \u{23f8e}\
  \u{6fc6}\
  \u{7039}\
  \u{701b}\
  \u{3d96}\
  \u{704a}\
  \u{707d}\
  \u{7077}\
  \u{70ad}\
  \u{20525}\
  \u{7145}\
  \u{24263}\
  \u{719c}\
  \u{7228}\
  \u{7250}\
  \u{24608}\
  \u{7280}\
  \u{7295}\
  \u{24735}\
  \u{24814}\
  \u{737a}\
  \u{738b}\
  \u{3eac}\
  \u{73a5}\
  \u{3eb8}\
  \u{7447}\
  \u{745c}\
  \u{7485}\
  \u{74ca}\
  \u{3f1b}\
  \u{7524}\
  \u{24c36}\
  \u{753e}\
  \u{24c92}\
  \u{2219f}\
  \u{7610}\
  \u{24fa1}\
  \u{24fb8}\
  \u{25044}\
  \u{3ffc}\
  \u{4008}\
  \u{250f3}\
  \u{250f2}\
  \u{25119}\
  \u{25133}\
  \u{771e}\
  \u{771f}\
  \u{778b}\
  \u{4046}\
  \u{4096}\
  \u{2541d}\
  \u{784e}\
  \u{40e3}\
  \u{25626}\
  \u{2569a}\
  \u{256c5}\
  \u{79eb}\
  \u{412f}\
  \u{7a4a}\
  \u{7a4f}\
  \u{2597c}\
  \u{25aa7}\
  \u{4202}\
  \u{25bab}\
  \u{7bc6}\
  \u{7bc9}\
  \u{4227}\
  \u{25c80}\
  \u{7cd2}\
  \u{42a0}\
  \u{7ce8}\
  \u{7ce3}\
  \u{7d00}\
  \u{25f86}\
  \u{7d63}\
  \u{4301}\
  \u{7dc7}\
  \u{7e02}\
  \u{7e45}\
  \u{4334}\
  \u{26228}\
  \u{26247}\
  \u{4359}\
  \u{262d9}\
  \u{7f7a}\
  \u{2633e}\
  \u{7f95}\
  \u{7ffa}\
  \u{264da}\
  \u{26523}\
  \u{8060}\
  \u{265a8}\
  \u{8070}\
  \u{2335f}\
  \u{43d5}\
  \u{80b2}\
  \u{8103}\
  \u{440b}\
  \u{813e}\
  \u{5ab5}\
  \u{267a7}\
  \u{267b5}\
  \u{23393}\
  \u{2339c}\
  \u{8204}\
  \u{8f9e}\
  \u{446b}\
  \u{8291}\
  \u{828b}\
  \u{829d}\
  \u{52b3}\
  \u{82b1}\
  \u{82b3}\
  \u{82bd}\
  \u{82e6}\
  \u{26b3c}\
  \u{831d}\
  \u{8363}\
  \u{83ad}\
  \u{8323}\
  \u{83bd}\
  \u{83e7}\
  \u{8353}\
  \u{83ca}\
  \u{83cc}\
  \u{83dc}\
  \u{26c36}\
  \u{26d6b}\
  \u{26cd5}\
  \u{452b}\
  \u{84f1}\
  \u{84f3}\
  \u{8516}\
  \u{273ca}\
  \u{8564}\
  \u{26f2c}\
  \u{455d}\
  \u{4561}\
  \u{26fb1}\
  \u{270d2}\
  \u{456b}\
  \u{8650}\
  \u{8667}\
  \u{8669}\
  \u{86a9}\
  \u{8688}\
  \u{870e}\
  \u{86e2}\
  \u{8728}\
  \u{876b}\
  \u{8786}\
  \u{87e1}\
  \u{8801}\
  \u{45f9}\
  \u{8860}\
  \u{27667}\
  \u{88d7}\
  \u{88de}\
  \u{4635}\
  \u{88fa}\
  \u{34bb}\
  \u{278ae}\
  \u{27966}\
  \u{46be}\
  \u{46c7}\
  \u{8aa0}\
  \u{27ca8}\
  \u{8cab}\
  \u{8cc1}\
  \u{8d1b}\
  \u{8d77}\
  \u{27f2f}\
  \u{20804}\
  \u{8dcb}\
  \u{8dbc}\
  \u{8df0}\
  \u{208de}\
  \u{8ed4}\
  \u{285d2}\
  \u{285ed}\
  \u{9094}\
  \u{90f1}\
  \u{9111}\
  \u{2872e}\
  \u{911b}\
  \u{9238}\
  \u{92d7}\
  \u{92d8}\
  \u{927c}\
  \u{93f9}\
  \u{9415}\
  \u{28bfa}\
  \u{958b}\
  \u{4995}\
  \u{95b7}\
  \u{28d77}\
  \u{49e6}\
  \u{96c3}\
  \u{5db2}\
  \u{9723}\
  \u{29145}\
  \u{2921a}\
  \u{4a6e}\
  \u{4a76}\
  \u{97e0}\
  \u{2940a}\
  \u{4ab2}\
  \u{29496}\
  \u{9829}\
  \u{295b6}\
  \u{98e2}\
  \u{4b33}\
  \u{9929}\
  \u{99a7}\
  \u{99c2}\
  \u{99fe}\
  \u{4bce}\
  \u{29b30}\
  \u{9c40}\
  \u{9cfd}\
  \u{4cce}\
  \u{4ced}\
  \u{9d67}\
  \u{2a0ce}\
  \u{4cf8}\
  \u{2a105}\
  \u{2a20e}\
  \u{2a291}\
  \u{4d56}\
  \u{9efe}\
  \u{9f05}\
  \u{9f0f}\
  \u{9f16}\
  \u{2a600}";

// Scaling by powers of ten: decided for every exponent of the table, and beyond it, on constants.
#include "vp.h"
using strtk::details::pow10;
static inline bool near(double a,double b) { return a>=b*(1-4e-16) && a<=b*(1+4e-16); }
#define UP(k,v) VP_CHECK(k,near(pow10(1.0,k),v)); VP_CHECK(k+1000,near(-pow10(-7.0,k),7.0*v));
#define DN(k,v) VP_CHECK(k+2000,near(pow10(1.0,-k),1.0/v)); VP_CHECK(k+3000,near(pow10(3.0,-k),3.0/v));
DRV(up_0) { UP(1,1e1) UP(2,1e2) UP(3,1e3) UP(4,1e4) UP(5,1e5) UP(6,1e6) UP(7,1e7) UP(8,1e8) UP(9,1e9) UP(10,1e10) UP(11,1e11) UP(12,1e12) UP(13,1e13) UP(14,1e14) UP(15,1e15) UP(16,1e16) UP(17,1e17) UP(18,1e18) UP(19,1e19) UP(20,1e20) UP(21,1e21) UP(22,1e22) UP(23,1e23) UP(24,1e24) UP(25,1e25) UP(26,1e26) UP(27,1e27) UP(28,1e28) UP(29,1e29) UP(30,1e30) UP(31,1e31) UP(32,1e32) UP(33,1e33) UP(34,1e34) UP(35,1e35) UP(36,1e36) UP(37,1e37) UP(38,1e38) UP(39,1e39) UP(40,1e40) UP(41,1e41) UP(42,1e42) UP(43,1e43) UP(44,1e44) vp_end(); }
DRV(up_44) { UP(45,1e45) UP(46,1e46) UP(47,1e47) UP(48,1e48) UP(49,1e49) UP(50,1e50) UP(51,1e51) UP(52,1e52) UP(53,1e53) UP(54,1e54) UP(55,1e55) UP(56,1e56) UP(57,1e57) UP(58,1e58) UP(59,1e59) UP(60,1e60) UP(61,1e61) UP(62,1e62) UP(63,1e63) UP(64,1e64) UP(65,1e65) UP(66,1e66) UP(67,1e67) UP(68,1e68) UP(69,1e69) UP(70,1e70) UP(71,1e71) UP(72,1e72) UP(73,1e73) UP(74,1e74) UP(75,1e75) UP(76,1e76) UP(77,1e77) UP(78,1e78) UP(79,1e79) UP(80,1e80) UP(81,1e81) UP(82,1e82) UP(83,1e83) UP(84,1e84) UP(85,1e85) UP(86,1e86) UP(87,1e87) UP(88,1e88) vp_end(); }
DRV(up_88) { UP(89,1e89) UP(90,1e90) UP(91,1e91) UP(92,1e92) UP(93,1e93) UP(94,1e94) UP(95,1e95) UP(96,1e96) UP(97,1e97) UP(98,1e98) UP(99,1e99) UP(100,1e100) UP(101,1e101) UP(102,1e102) UP(103,1e103) UP(104,1e104) UP(105,1e105) UP(106,1e106) UP(107,1e107) UP(108,1e108) UP(109,1e109) UP(110,1e110) UP(111,1e111) UP(112,1e112) UP(113,1e113) UP(114,1e114) UP(115,1e115) UP(116,1e116) UP(117,1e117) UP(118,1e118) UP(119,1e119) UP(120,1e120) UP(121,1e121) UP(122,1e122) UP(123,1e123) UP(124,1e124) UP(125,1e125) UP(126,1e126) UP(127,1e127) UP(128,1e128) UP(129,1e129) UP(130,1e130) UP(131,1e131) UP(132,1e132) vp_end(); }
DRV(up_132) { UP(133,1e133) UP(134,1e134) UP(135,1e135) UP(136,1e136) UP(137,1e137) UP(138,1e138) UP(139,1e139) UP(140,1e140) UP(141,1e141) UP(142,1e142) UP(143,1e143) UP(144,1e144) UP(145,1e145) UP(146,1e146) UP(147,1e147) UP(148,1e148) UP(149,1e149) UP(150,1e150) UP(151,1e151) UP(152,1e152) UP(153,1e153) UP(154,1e154) UP(155,1e155) UP(156,1e156) UP(157,1e157) UP(158,1e158) UP(159,1e159) UP(160,1e160) UP(161,1e161) UP(162,1e162) UP(163,1e163) UP(164,1e164) UP(165,1e165) UP(166,1e166) UP(167,1e167) UP(168,1e168) UP(169,1e169) UP(170,1e170) UP(171,1e171) UP(172,1e172) UP(173,1e173) UP(174,1e174) UP(175,1e175) UP(176,1e176) vp_end(); }
DRV(up_176) { UP(177,1e177) UP(178,1e178) UP(179,1e179) UP(180,1e180) UP(181,1e181) UP(182,1e182) UP(183,1e183) UP(184,1e184) UP(185,1e185) UP(186,1e186) UP(187,1e187) UP(188,1e188) UP(189,1e189) UP(190,1e190) UP(191,1e191) UP(192,1e192) UP(193,1e193) UP(194,1e194) UP(195,1e195) UP(196,1e196) UP(197,1e197) UP(198,1e198) UP(199,1e199) UP(200,1e200) UP(201,1e201) UP(202,1e202) UP(203,1e203) UP(204,1e204) UP(205,1e205) UP(206,1e206) UP(207,1e207) UP(208,1e208) UP(209,1e209) UP(210,1e210) UP(211,1e211) UP(212,1e212) UP(213,1e213) UP(214,1e214) UP(215,1e215) UP(216,1e216) UP(217,1e217) UP(218,1e218) UP(219,1e219) UP(220,1e220) vp_end(); }
DRV(up_220) { UP(221,1e221) UP(222,1e222) UP(223,1e223) UP(224,1e224) UP(225,1e225) UP(226,1e226) UP(227,1e227) UP(228,1e228) UP(229,1e229) UP(230,1e230) UP(231,1e231) UP(232,1e232) UP(233,1e233) UP(234,1e234) UP(235,1e235) UP(236,1e236) UP(237,1e237) UP(238,1e238) UP(239,1e239) UP(240,1e240) UP(241,1e241) UP(242,1e242) UP(243,1e243) UP(244,1e244) UP(245,1e245) UP(246,1e246) UP(247,1e247) UP(248,1e248) UP(249,1e249) UP(250,1e250) UP(251,1e251) UP(252,1e252) UP(253,1e253) UP(254,1e254) UP(255,1e255) UP(256,1e256) UP(257,1e257) UP(258,1e258) UP(259,1e259) UP(260,1e260) UP(261,1e261) UP(262,1e262) UP(263,1e263) UP(264,1e264) vp_end(); }
DRV(up_264) { UP(265,1e265) UP(266,1e266) UP(267,1e267) UP(268,1e268) UP(269,1e269) UP(270,1e270) UP(271,1e271) UP(272,1e272) UP(273,1e273) UP(274,1e274) UP(275,1e275) UP(276,1e276) UP(277,1e277) UP(278,1e278) UP(279,1e279) UP(280,1e280) UP(281,1e281) UP(282,1e282) UP(283,1e283) UP(284,1e284) UP(285,1e285) UP(286,1e286) UP(287,1e287) UP(288,1e288) UP(289,1e289) UP(290,1e290) UP(291,1e291) UP(292,1e292) UP(293,1e293) UP(294,1e294) UP(295,1e295) UP(296,1e296) UP(297,1e297) UP(298,1e298) UP(299,1e299) UP(300,1e300) UP(301,1e301) UP(302,1e302) UP(303,1e303) UP(304,1e304) UP(305,1e305) UP(306,1e306) UP(307,1e307) vp_end(); }
DRV(down_0) { DN(1,1e1) DN(2,1e2) DN(3,1e3) DN(4,1e4) DN(5,1e5) DN(6,1e6) DN(7,1e7) DN(8,1e8) DN(9,1e9) DN(10,1e10) DN(11,1e11) DN(12,1e12) DN(13,1e13) DN(14,1e14) DN(15,1e15) DN(16,1e16) DN(17,1e17) DN(18,1e18) DN(19,1e19) DN(20,1e20) DN(21,1e21) DN(22,1e22) DN(23,1e23) DN(24,1e24) DN(25,1e25) DN(26,1e26) DN(27,1e27) DN(28,1e28) DN(29,1e29) DN(30,1e30) DN(31,1e31) DN(32,1e32) DN(33,1e33) DN(34,1e34) DN(35,1e35) DN(36,1e36) DN(37,1e37) DN(38,1e38) DN(39,1e39) DN(40,1e40) DN(41,1e41) DN(42,1e42) DN(43,1e43) DN(44,1e44) vp_end(); }
DRV(down_44) { DN(45,1e45) DN(46,1e46) DN(47,1e47) DN(48,1e48) DN(49,1e49) DN(50,1e50) DN(51,1e51) DN(52,1e52) DN(53,1e53) DN(54,1e54) DN(55,1e55) DN(56,1e56) DN(57,1e57) DN(58,1e58) DN(59,1e59) DN(60,1e60) DN(61,1e61) DN(62,1e62) DN(63,1e63) DN(64,1e64) DN(65,1e65) DN(66,1e66) DN(67,1e67) DN(68,1e68) DN(69,1e69) DN(70,1e70) DN(71,1e71) DN(72,1e72) DN(73,1e73) DN(74,1e74) DN(75,1e75) DN(76,1e76) DN(77,1e77) DN(78,1e78) DN(79,1e79) DN(80,1e80) DN(81,1e81) DN(82,1e82) DN(83,1e83) DN(84,1e84) DN(85,1e85) DN(86,1e86) DN(87,1e87) DN(88,1e88) vp_end(); }
DRV(down_88) { DN(89,1e89) DN(90,1e90) DN(91,1e91) DN(92,1e92) DN(93,1e93) DN(94,1e94) DN(95,1e95) DN(96,1e96) DN(97,1e97) DN(98,1e98) DN(99,1e99) DN(100,1e100) DN(101,1e101) DN(102,1e102) DN(103,1e103) DN(104,1e104) DN(105,1e105) DN(106,1e106) DN(107,1e107) DN(108,1e108) DN(109,1e109) DN(110,1e110) DN(111,1e111) DN(112,1e112) DN(113,1e113) DN(114,1e114) DN(115,1e115) DN(116,1e116) DN(117,1e117) DN(118,1e118) DN(119,1e119) DN(120,1e120) DN(121,1e121) DN(122,1e122) DN(123,1e123) DN(124,1e124) DN(125,1e125) DN(126,1e126) DN(127,1e127) DN(128,1e128) DN(129,1e129) DN(130,1e130) DN(131,1e131) DN(132,1e132) vp_end(); }
DRV(down_132) { DN(133,1e133) DN(134,1e134) DN(135,1e135) DN(136,1e136) DN(137,1e137) DN(138,1e138) DN(139,1e139) DN(140,1e140) DN(141,1e141) DN(142,1e142) DN(143,1e143) DN(144,1e144) DN(145,1e145) DN(146,1e146) DN(147,1e147) DN(148,1e148) DN(149,1e149) DN(150,1e150) DN(151,1e151) DN(152,1e152) DN(153,1e153) DN(154,1e154) DN(155,1e155) DN(156,1e156) DN(157,1e157) DN(158,1e158) DN(159,1e159) DN(160,1e160) DN(161,1e161) DN(162,1e162) DN(163,1e163) DN(164,1e164) DN(165,1e165) DN(166,1e166) DN(167,1e167) DN(168,1e168) DN(169,1e169) DN(170,1e170) DN(171,1e171) DN(172,1e172) DN(173,1e173) DN(174,1e174) DN(175,1e175) DN(176,1e176) vp_end(); }
DRV(down_176) { DN(177,1e177) DN(178,1e178) DN(179,1e179) DN(180,1e180) DN(181,1e181) DN(182,1e182) DN(183,1e183) DN(184,1e184) DN(185,1e185) DN(186,1e186) DN(187,1e187) DN(188,1e188) DN(189,1e189) DN(190,1e190) DN(191,1e191) DN(192,1e192) DN(193,1e193) DN(194,1e194) DN(195,1e195) DN(196,1e196) DN(197,1e197) DN(198,1e198) DN(199,1e199) DN(200,1e200) DN(201,1e201) DN(202,1e202) DN(203,1e203) DN(204,1e204) DN(205,1e205) DN(206,1e206) DN(207,1e207) DN(208,1e208) DN(209,1e209) DN(210,1e210) DN(211,1e211) DN(212,1e212) DN(213,1e213) DN(214,1e214) DN(215,1e215) DN(216,1e216) DN(217,1e217) DN(218,1e218) DN(219,1e219) DN(220,1e220) vp_end(); }
DRV(down_220) { DN(221,1e221) DN(222,1e222) DN(223,1e223) DN(224,1e224) DN(225,1e225) DN(226,1e226) DN(227,1e227) DN(228,1e228) DN(229,1e229) DN(230,1e230) DN(231,1e231) DN(232,1e232) DN(233,1e233) DN(234,1e234) DN(235,1e235) DN(236,1e236) DN(237,1e237) DN(238,1e238) DN(239,1e239) DN(240,1e240) DN(241,1e241) DN(242,1e242) DN(243,1e243) DN(244,1e244) DN(245,1e245) DN(246,1e246) DN(247,1e247) DN(248,1e248) DN(249,1e249) DN(250,1e250) DN(251,1e251) DN(252,1e252) DN(253,1e253) DN(254,1e254) DN(255,1e255) DN(256,1e256) DN(257,1e257) DN(258,1e258) DN(259,1e259) DN(260,1e260) DN(261,1e261) DN(262,1e262) DN(263,1e263) DN(264,1e264) vp_end(); }
DRV(down_264) { DN(265,1e265) DN(266,1e266) DN(267,1e267) DN(268,1e268) DN(269,1e269) DN(270,1e270) DN(271,1e271) DN(272,1e272) DN(273,1e273) DN(274,1e274) DN(275,1e275) DN(276,1e276) DN(277,1e277) DN(278,1e278) DN(279,1e279) DN(280,1e280) DN(281,1e281) DN(282,1e282) DN(283,1e283) DN(284,1e284) DN(285,1e285) DN(286,1e286) DN(287,1e287) DN(288,1e288) DN(289,1e289) DN(290,1e290) DN(291,1e291) DN(292,1e292) DN(293,1e293) DN(294,1e294) DN(295,1e295) DN(296,1e296) DN(297,1e297) DN(298,1e298) DN(299,1e299) DN(300,1e300) DN(301,1e301) DN(302,1e302) DN(303,1e303) DN(304,1e304) DN(305,1e305) DN(306,1e306) vp_end(); }
DRV(none) { VP_CHECK(1,pow10(5.0,0)==5.0); VP_CHECK(2,pow10(0.0,400)==0.0); VP_CHECK(3,pow10(0.0,-400)==0.0); VP_CHECK(4,pow10(0.0,5)==0.0); VP_CHECK(5,near(pow10(1.0f,5),1e5)); VP_CHECK(6,pow10(0.0f,60)==0.0f); vp_end(); }
DRV(beyond) { VP_CHECK(1,near(pow10(1.0,308),1e308)); VP_CHECK(2,pow10(1.0,309)>1e308); VP_CHECK(4,pow10(1.0,-310)>0.9e-310); VP_CHECK(5,pow10(1.0,-310)<1.1e-310); VP_CHECK(6,pow10(1.0,-700)==0.0); VP_CHECK(7,pow10(1.0,-2147483647)==0.0); vp_end(); }
DRV(beyond_small) { double d=pow10(1e-5,310); VP_CHECK(1,d>0.99e305); VP_CHECK(2,d<1.01e305); d=pow10(1e-300,320); VP_CHECK(3,d>0.99e20); VP_CHECK(4,d<1.01e20); vp_end(); }

// types as wide, and numbers as large, as nobody writes by hand (generated once)

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(enumtype = "enumint", skipkey = 24, skipkey = 256)]
pub enum Code300 {
    K0, K1, K2, K3, K4, K5, K6, K7, K8, K9, K10, K11, K12, K13, K14, K15, K16, K17, K18, K19,
    K20, K21, K22, K23, K24, K25, K26, K27, K28, K29, K30, K31, K32, K33, K34, K35, K36, K37, K38, K39,
    K40, K41, K42, K43, K44, K45, K46, K47, K48, K49, K50, K51, K52, K53, K54, K55, K56, K57, K58, K59,
    K60, K61, K62, K63, K64, K65, K66, K67, K68, K69, K70, K71, K72, K73, K74, K75, K76, K77, K78, K79,
    K80, K81, K82, K83, K84, K85, K86, K87, K88, K89, K90, K91, K92, K93, K94, K95, K96, K97, K98, K99,
    K100, K101, K102, K103, K104, K105, K106, K107, K108, K109, K110, K111, K112, K113, K114, K115, K116, K117, K118, K119,
    K120, K121, K122, K123, K124, K125, K126, K127, K128, K129, K130, K131, K132, K133, K134, K135, K136, K137, K138, K139,
    K140, K141, K142, K143, K144, K145, K146, K147, K148, K149, K150, K151, K152, K153, K154, K155, K156, K157, K158, K159,
    K160, K161, K162, K163, K164, K165, K166, K167, K168, K169, K170, K171, K172, K173, K174, K175, K176, K177, K178, K179,
    K180, K181, K182, K183, K184, K185, K186, K187, K188, K189, K190, K191, K192, K193, K194, K195, K196, K197, K198, K199,
    K200, K201, K202, K203, K204, K205, K206, K207, K208, K209, K210, K211, K212, K213, K214, K215, K216, K217, K218, K219,
    K220, K221, K222, K223, K224, K225, K226, K227, K228, K229, K230, K231, K232, K233, K234, K235, K236, K237, K238, K239,
    K240, K241, K242, K243, K244, K245, K246, K247, K248, K249, K250, K251, K252, K253, K254, K255, K256, K257, K258, K259,
    K260, K261, K262, K263, K264, K265, K266, K267, K268, K269, K270, K271, K272, K273, K274, K275, K276, K277, K278, K279,
    K280, K281, K282, K283, K284, K285, K286, K287, K288, K289, K290, K291, K292, K293, K294, K295, K296, K297, K298, K299,
}

rec_enumint!(Code300, 0, [
    K0 = 0, K1 = 1, K2 = 2, K3 = 3, K4 = 4, K5 = 5, K6 = 6, K7 = 7, K8 = 8, K9 = 9, K10 = 10, K11 = 11,
    K12 = 12, K13 = 13, K14 = 14, K15 = 15, K16 = 16, K17 = 17, K18 = 18, K19 = 19, K20 = 20, K21 = 21, K22 = 22, K23 = 23,
    K24 = 25, K25 = 26, K26 = 27, K27 = 28, K28 = 29, K29 = 30, K30 = 31, K31 = 32, K32 = 33, K33 = 34, K34 = 35, K35 = 36,
    K36 = 37, K37 = 38, K38 = 39, K39 = 40, K40 = 41, K41 = 42, K42 = 43, K43 = 44, K44 = 45, K45 = 46, K46 = 47, K47 = 48,
    K48 = 49, K49 = 50, K50 = 51, K51 = 52, K52 = 53, K53 = 54, K54 = 55, K55 = 56, K56 = 57, K57 = 58, K58 = 59, K59 = 60,
    K60 = 61, K61 = 62, K62 = 63, K63 = 64, K64 = 65, K65 = 66, K66 = 67, K67 = 68, K68 = 69, K69 = 70, K70 = 71, K71 = 72,
    K72 = 73, K73 = 74, K74 = 75, K75 = 76, K76 = 77, K77 = 78, K78 = 79, K79 = 80, K80 = 81, K81 = 82, K82 = 83, K83 = 84,
    K84 = 85, K85 = 86, K86 = 87, K87 = 88, K88 = 89, K89 = 90, K90 = 91, K91 = 92, K92 = 93, K93 = 94, K94 = 95, K95 = 96,
    K96 = 97, K97 = 98, K98 = 99, K99 = 100, K100 = 101, K101 = 102, K102 = 103, K103 = 104, K104 = 105, K105 = 106, K106 = 107, K107 = 108,
    K108 = 109, K109 = 110, K110 = 111, K111 = 112, K112 = 113, K113 = 114, K114 = 115, K115 = 116, K116 = 117, K117 = 118, K118 = 119, K119 = 120,
    K120 = 121, K121 = 122, K122 = 123, K123 = 124, K124 = 125, K125 = 126, K126 = 127, K127 = 128, K128 = 129, K129 = 130, K130 = 131, K131 = 132,
    K132 = 133, K133 = 134, K134 = 135, K135 = 136, K136 = 137, K137 = 138, K138 = 139, K139 = 140, K140 = 141, K141 = 142, K142 = 143, K143 = 144,
    K144 = 145, K145 = 146, K146 = 147, K147 = 148, K148 = 149, K149 = 150, K150 = 151, K151 = 152, K152 = 153, K153 = 154, K154 = 155, K155 = 156,
    K156 = 157, K157 = 158, K158 = 159, K159 = 160, K160 = 161, K161 = 162, K162 = 163, K163 = 164, K164 = 165, K165 = 166, K166 = 167, K167 = 168,
    K168 = 169, K169 = 170, K170 = 171, K171 = 172, K172 = 173, K173 = 174, K174 = 175, K175 = 176, K176 = 177, K177 = 178, K178 = 179, K179 = 180,
    K180 = 181, K181 = 182, K182 = 183, K183 = 184, K184 = 185, K185 = 186, K186 = 187, K187 = 188, K188 = 189, K189 = 190, K190 = 191, K191 = 192,
    K192 = 193, K193 = 194, K194 = 195, K195 = 196, K196 = 197, K197 = 198, K198 = 199, K199 = 200, K200 = 201, K201 = 202, K202 = 203, K203 = 204,
    K204 = 205, K205 = 206, K206 = 207, K207 = 208, K208 = 209, K209 = 210, K210 = 211, K211 = 212, K212 = 213, K213 = 214, K214 = 215, K215 = 216,
    K216 = 217, K217 = 218, K218 = 219, K219 = 220, K220 = 221, K221 = 222, K222 = 223, K223 = 224, K224 = 225, K225 = 226, K226 = 227, K227 = 228,
    K228 = 229, K229 = 230, K230 = 231, K231 = 232, K232 = 233, K233 = 234, K234 = 235, K235 = 236, K236 = 237, K237 = 238, K238 = 239, K239 = 240,
    K240 = 241, K241 = 242, K242 = 243, K243 = 244, K244 = 245, K245 = 246, K246 = 247, K247 = 248, K248 = 249, K249 = 250, K250 = 251, K251 = 252,
    K252 = 253, K253 = 254, K254 = 255, K255 = 257, K256 = 258, K257 = 259, K258 = 260, K259 = 261, K260 = 262, K261 = 263, K262 = 264, K263 = 265,
    K264 = 266, K265 = 267, K266 = 268, K267 = 269, K268 = 270, K269 = 271, K270 = 272, K271 = 273, K272 = 274, K273 = 275, K274 = 276, K275 = 277,
    K276 = 278, K277 = 279, K278 = 280, K279 = 281, K280 = 282, K281 = 283, K282 = 284, K283 = 285, K284 = 286, K285 = 287, K286 = 288, K287 = 289,
    K288 = 290, K289 = 291, K290 = 292, K291 = 293, K292 = 294, K293 = 295, K294 = 296, K295 = 297, K296 = 298, K297 = 299, K298 = 300, K299 = 301
]);

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(enumtype = "enumint", variant_starts_at = 32767)]
pub enum CodeMid { A, B, C, D }
rec_enumint!(CodeMid, first_number(&CodeMid::A), [A = 0, B = 1, C = 2, D = 3]);

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(enumtype = "enumint", variant_starts_at = 2147483647)]
pub enum CodeHuge { A, B, C, D }
rec_enumint!(CodeHuge, first_number(&CodeHuge::A), [A = 0, B = 1, C = 2, D = 3]);

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "array", tag = 65535)]
pub struct Tup26(u8, String, bool, u32, Vec<u8>, u16, bool, [u8; 4], Scalar, u16, String, u32, u8, u16, bool, u32, u8, u16, bool, u32, u8, u16, bool, u32, u8, u16);
rec_tuple!(Tup26(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25) tag 65535);

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "array")]
pub struct Row260 {
    m0: u8, m1: u8, m2: u8, m3: u16, m4: u8, m5: u8, m6: u8, m7: u8, m8: u8, m9: u8,
    m10: u8, m11: u8, m12: u8, m13: u8, m14: u8, m15: u8, m16: u8, m17: u8, m18: u8, m19: u16,
    m20: u8, m21: u8, m22: u8, m23: u8, m24: u8, m25: u8, m26: u8, m27: u8, m28: u8, m29: u8,
    m30: u8, m31: u8, m32: u8, m33: u8, m34: u8, m35: u16, m36: u8, m37: u8, m38: u8, m39: u8,
    m40: u8, m41: u8, m42: u8, m43: u8, m44: u8, m45: u8, m46: u8, m47: u8, m48: u8, m49: u8,
    m50: u8, m51: u16, m52: u8, m53: u8, m54: u8, m55: u8, m56: u8, m57: u8, m58: u8, m59: u8,
    m60: u8, m61: u8, m62: u8, m63: u8, m64: u8, m65: u8, m66: u8, m67: u16, m68: u8, m69: u8,
    m70: u8, m71: u8, m72: u8, m73: u8, m74: u8, m75: u8, m76: u8, m77: u8, m78: u8, m79: u8,
    m80: u8, m81: u8, m82: u8, m83: u16, m84: u8, m85: u8, m86: u8, m87: u8, m88: u8, m89: u8,
    m90: u8, m91: u8, m92: u8, m93: u8, m94: u8, m95: u8, m96: u8, m97: u8, m98: u8, m99: u16,
    m100: u8, m101: u8, m102: u8, m103: u8, m104: u8, m105: u8, m106: u8, m107: u8, m108: u8, m109: u8,
    m110: u8, m111: u8, m112: u8, m113: u8, m114: u8, m115: u16, m116: u8, m117: u8, m118: u8, m119: u8,
    m120: u8, m121: u8, m122: u8, m123: u8, m124: u8, m125: u8, m126: u8, m127: u8, m128: u8, m129: u8,
    m130: u8, m131: u16, m132: u8, m133: u8, m134: u8, m135: u8, m136: u8, m137: u8, m138: u8, m139: u8,
    m140: u8, m141: u8, m142: u8, m143: u8, m144: u8, m145: u8, m146: u8, m147: u16, m148: u8, m149: u8,
    m150: u8, m151: u8, m152: u8, m153: u8, m154: u8, m155: u8, m156: u8, m157: u8, m158: u8, m159: u8,
    m160: u8, m161: u8, m162: u8, m163: u16, m164: u8, m165: u8, m166: u8, m167: u8, m168: u8, m169: u8,
    m170: u8, m171: u8, m172: u8, m173: u8, m174: u8, m175: u8, m176: u8, m177: u8, m178: u8, m179: u16,
    m180: u8, m181: u8, m182: u8, m183: u8, m184: u8, m185: u8, m186: u8, m187: u8, m188: u8, m189: u8,
    m190: u8, m191: u8, m192: u8, m193: u8, m194: u8, m195: u16, m196: u8, m197: u8, m198: u8, m199: u8,
    m200: u8, m201: u8, m202: u8, m203: u8, m204: u8, m205: u8, m206: u8, m207: u8, m208: u8, m209: u8,
    m210: u8, m211: u16, m212: u8, m213: u8, m214: u8, m215: u8, m216: u8, m217: u8, m218: u8, m219: u8,
    m220: u8, m221: u8, m222: u8, m223: u8, m224: u8, m225: u8, m226: u8, m227: u16, m228: u8, m229: u8,
    m230: u8, m231: u8, m232: u8, m233: u8, m234: u8, m235: u8, m236: u8, m237: u8, m238: u8, m239: u8,
    m240: u8, m241: u8, m242: u8, m243: u16, m244: u8, m245: u8, m246: u8, m247: u8, m248: u8, m249: u8,
    m250: u8, m251: u8, m252: u8, m253: u8, m254: u8, m255: u8, m256: u8, m257: u8, m258: u8, m259: String,
}
rec_array!(Row260 {
    m0: 0, m1: 1, m2: 2, m3: 3, m4: 4, m5: 5, m6: 6, m7: 7, m8: 8, m9: 9, m10: 10, m11: 11,
    m12: 12, m13: 13, m14: 14, m15: 15, m16: 16, m17: 17, m18: 18, m19: 19, m20: 20, m21: 21, m22: 22, m23: 23,
    m24: 24, m25: 25, m26: 26, m27: 27, m28: 28, m29: 29, m30: 30, m31: 31, m32: 32, m33: 33, m34: 34, m35: 35,
    m36: 36, m37: 37, m38: 38, m39: 39, m40: 40, m41: 41, m42: 42, m43: 43, m44: 44, m45: 45, m46: 46, m47: 47,
    m48: 48, m49: 49, m50: 50, m51: 51, m52: 52, m53: 53, m54: 54, m55: 55, m56: 56, m57: 57, m58: 58, m59: 59,
    m60: 60, m61: 61, m62: 62, m63: 63, m64: 64, m65: 65, m66: 66, m67: 67, m68: 68, m69: 69, m70: 70, m71: 71,
    m72: 72, m73: 73, m74: 74, m75: 75, m76: 76, m77: 77, m78: 78, m79: 79, m80: 80, m81: 81, m82: 82, m83: 83,
    m84: 84, m85: 85, m86: 86, m87: 87, m88: 88, m89: 89, m90: 90, m91: 91, m92: 92, m93: 93, m94: 94, m95: 95,
    m96: 96, m97: 97, m98: 98, m99: 99, m100: 100, m101: 101, m102: 102, m103: 103, m104: 104, m105: 105, m106: 106, m107: 107,
    m108: 108, m109: 109, m110: 110, m111: 111, m112: 112, m113: 113, m114: 114, m115: 115, m116: 116, m117: 117, m118: 118, m119: 119,
    m120: 120, m121: 121, m122: 122, m123: 123, m124: 124, m125: 125, m126: 126, m127: 127, m128: 128, m129: 129, m130: 130, m131: 131,
    m132: 132, m133: 133, m134: 134, m135: 135, m136: 136, m137: 137, m138: 138, m139: 139, m140: 140, m141: 141, m142: 142, m143: 143,
    m144: 144, m145: 145, m146: 146, m147: 147, m148: 148, m149: 149, m150: 150, m151: 151, m152: 152, m153: 153, m154: 154, m155: 155,
    m156: 156, m157: 157, m158: 158, m159: 159, m160: 160, m161: 161, m162: 162, m163: 163, m164: 164, m165: 165, m166: 166, m167: 167,
    m168: 168, m169: 169, m170: 170, m171: 171, m172: 172, m173: 173, m174: 174, m175: 175, m176: 176, m177: 177, m178: 178, m179: 179,
    m180: 180, m181: 181, m182: 182, m183: 183, m184: 184, m185: 185, m186: 186, m187: 187, m188: 188, m189: 189, m190: 190, m191: 191,
    m192: 192, m193: 193, m194: 194, m195: 195, m196: 196, m197: 197, m198: 198, m199: 199, m200: 200, m201: 201, m202: 202, m203: 203,
    m204: 204, m205: 205, m206: 206, m207: 207, m208: 208, m209: 209, m210: 210, m211: 211, m212: 212, m213: 213, m214: 214, m215: 215,
    m216: 216, m217: 217, m218: 218, m219: 219, m220: 220, m221: 221, m222: 222, m223: 223, m224: 224, m225: 225, m226: 226, m227: 227,
    m228: 228, m229: 229, m230: 230, m231: 231, m232: 232, m233: 233, m234: 234, m235: 235, m236: 236, m237: 237, m238: 238, m239: 239,
    m240: 240, m241: 241, m242: 242, m243: 243, m244: 244, m245: 245, m246: 246, m247: 247, m248: 248, m249: 249, m250: 250, m251: 251,
    m252: 252, m253: 253, m254: 254, m255: 255, m256: 256, m257: 257, m258: 258, m259: 259
});

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(enumtype = "tagvariant", variant_starts_at = 32767)]
pub enum WideVariants {
    Short(u8),
    Edge(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, String),
    Over { b0: bool, b1: u16, b2: u16, b3: u16, b4: u16, b5: bool, b6: u16, b7: u16, b8: u16, b9: u16, b10: bool, b11: u16, b12: u16, b13: u16, b14: u16, b15: bool, b16: u16, b17: u16, b18: u16, b19: u16, b20: bool, b21: u16, b22: u16, b23: u16 },
    Rows(Vec<u16>, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, Vec<String>),
}
impl Rec for WideVariants {
    const NAME: &'static str = "WideVariants";
    fn nodes(&self) -> Vec<Node> {
        let b = first_number(&WideVariants::Short(0));
        match self {
            WideVariants::Short(a) => variant(b, vec![a.node()]),
            WideVariants::Edge(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22) => variant(b + 1, vec![a0.node(), a1.node(), a2.node(), a3.node(), a4.node(), a5.node(), a6.node(), a7.node(), a8.node(), a9.node(), a10.node(), a11.node(), a12.node(), a13.node(), a14.node(), a15.node(), a16.node(), a17.node(), a18.node(), a19.node(), a20.node(), a21.node(), a22.node()]),
            WideVariants::Over { b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17, b18, b19, b20, b21, b22, b23 } => variant(b + 2, vec![b0.node(), b1.node(), b2.node(), b3.node(), b4.node(), b5.node(), b6.node(), b7.node(), b8.node(), b9.node(), b10.node(), b11.node(), b12.node(), b13.node(), b14.node(), b15.node(), b16.node(), b17.node(), b18.node(), b19.node(), b20.node(), b21.node(), b22.node(), b23.node()]),
            WideVariants::Rows(c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23, c24) => variant(b + 3, vec![vec_node(c0), c1.node(), c2.node(), c3.node(), c4.node(), c5.node(), c6.node(), c7.node(), c8.node(), c9.node(), c10.node(), c11.node(), c12.node(), c13.node(), c14.node(), c15.node(), c16.node(), c17.node(), c18.node(), c19.node(), c20.node(), c21.node(), c22.node(), c23.node(), vec_node(c24)]),
        }
    }
    fn from_nodes(n: &[Node]) -> Option<Self> {
        let b = first_number(&WideVariants::Short(0));
        let (v, e) = parts(n)?;
        Some(match (v.checked_sub(b)?, e.len()) {
            (0, 1) => WideVariants::Short(Fld::from(&e[0])?),
            (1, 23) => WideVariants::Edge(Fld::from(&e[0])?, Fld::from(&e[1])?, Fld::from(&e[2])?, Fld::from(&e[3])?, Fld::from(&e[4])?, Fld::from(&e[5])?, Fld::from(&e[6])?, Fld::from(&e[7])?, Fld::from(&e[8])?, Fld::from(&e[9])?, Fld::from(&e[10])?, Fld::from(&e[11])?, Fld::from(&e[12])?, Fld::from(&e[13])?, Fld::from(&e[14])?, Fld::from(&e[15])?, Fld::from(&e[16])?, Fld::from(&e[17])?, Fld::from(&e[18])?, Fld::from(&e[19])?, Fld::from(&e[20])?, Fld::from(&e[21])?, Fld::from(&e[22])?),
            (2, 24) => WideVariants::Over { b0: Fld::from(&e[0])?, b1: Fld::from(&e[1])?, b2: Fld::from(&e[2])?, b3: Fld::from(&e[3])?, b4: Fld::from(&e[4])?, b5: Fld::from(&e[5])?, b6: Fld::from(&e[6])?, b7: Fld::from(&e[7])?, b8: Fld::from(&e[8])?, b9: Fld::from(&e[9])?, b10: Fld::from(&e[10])?, b11: Fld::from(&e[11])?, b12: Fld::from(&e[12])?, b13: Fld::from(&e[13])?, b14: Fld::from(&e[14])?, b15: Fld::from(&e[15])?, b16: Fld::from(&e[16])?, b17: Fld::from(&e[17])?, b18: Fld::from(&e[18])?, b19: Fld::from(&e[19])?, b20: Fld::from(&e[20])?, b21: Fld::from(&e[21])?, b22: Fld::from(&e[22])?, b23: Fld::from(&e[23])? },
            (3, 25) => WideVariants::Rows(vec_from(&e[0])?, Fld::from(&e[1])?, Fld::from(&e[2])?, Fld::from(&e[3])?, Fld::from(&e[4])?, Fld::from(&e[5])?, Fld::from(&e[6])?, Fld::from(&e[7])?, Fld::from(&e[8])?, Fld::from(&e[9])?, Fld::from(&e[10])?, Fld::from(&e[11])?, Fld::from(&e[12])?, Fld::from(&e[13])?, Fld::from(&e[14])?, Fld::from(&e[15])?, Fld::from(&e[16])?, Fld::from(&e[17])?, Fld::from(&e[18])?, Fld::from(&e[19])?, Fld::from(&e[20])?, Fld::from(&e[21])?, Fld::from(&e[22])?, Fld::from(&e[23])?, vec_from(&e[24])?),
            _ => return None,
        })
    }
    fn make(g: &Gen, s: &mut Src) -> Self {
        match s.draw(4) {
            0 => WideVariants::Short(Fld::gen(g, s)),
            1 => WideVariants::Edge(Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s)),
            2 => WideVariants::Over { b0: Fld::gen(g, s), b1: Fld::gen(g, s), b2: Fld::gen(g, s), b3: Fld::gen(g, s), b4: Fld::gen(g, s), b5: Fld::gen(g, s), b6: Fld::gen(g, s), b7: Fld::gen(g, s), b8: Fld::gen(g, s), b9: Fld::gen(g, s), b10: Fld::gen(g, s), b11: Fld::gen(g, s), b12: Fld::gen(g, s), b13: Fld::gen(g, s), b14: Fld::gen(g, s), b15: Fld::gen(g, s), b16: Fld::gen(g, s), b17: Fld::gen(g, s), b18: Fld::gen(g, s), b19: Fld::gen(g, s), b20: Fld::gen(g, s), b21: Fld::gen(g, s), b22: Fld::gen(g, s), b23: Fld::gen(g, s) },
            _ => WideVariants::Rows(vec_gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), Fld::gen(g, s), vec_gen(g, s)),
        }
    }
}

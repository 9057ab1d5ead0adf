//! Key types under check.  `K_*` arrays list every key of the type in iteration order.
use fixed_map::Key;

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum U0 {  }
pub const K_U0: [U0; 0] = [];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum U1 { V0 }
pub const K_U1: [U1; 1] = [U1::V0];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum U2 { V0, V1 }
pub const K_U2: [U2; 2] = [U2::V0, U2::V1];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum U3 { V0, V1, V2 }
pub const K_U3: [U3; 3] = [U3::V0, U3::V1, U3::V2];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum U4 { V0, V1, V2, V3 }
pub const K_U4: [U4; 4] = [U4::V0, U4::V1, U4::V2, U4::V3];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum U5 { V0, V1, V2, V3, V4 }
pub const K_U5: [U5; 5] = [U5::V0, U5::V1, U5::V2, U5::V3, U5::V4];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum U6 { V0, V1, V2, V3, V4, V5 }
pub const K_U6: [U6; 6] = [U6::V0, U6::V1, U6::V2, U6::V3, U6::V4, U6::V5];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum U7 { V0, V1, V2, V3, V4, V5, V6 }
pub const K_U7: [U7; 7] = [U7::V0, U7::V1, U7::V2, U7::V3, U7::V4, U7::V5, U7::V6];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum U8 { V0, V1, V2, V3, V4, V5, V6, V7 }
pub const K_U8: [U8; 8] = [U8::V0, U8::V1, U8::V2, U8::V3, U8::V4, U8::V5, U8::V6, U8::V7];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum U9 { V0, V1, V2, V3, V4, V5, V6, V7, V8 }
pub const K_U9: [U9; 9] = [U9::V0, U9::V1, U9::V2, U9::V3, U9::V4, U9::V5, U9::V6, U9::V7, U9::V8];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum D3 { A = 300, B = -2, C = 4 }
pub const K_D3: [D3; 3] = [D3::A, D3::B, D3::C];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
#[key(bitset)] pub enum DB3 { A = 300, B = -2, C = 4 }
pub const K_DB3: [DB3; 3] = [DB3::A, DB3::B, DB3::C];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
#[key(bitset)] pub enum B0 {  }
pub const K_B0: [B0; 0] = [];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
#[key(bitset)] pub enum B1 { V0 }
pub const K_B1: [B1; 1] = [B1::V0];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
#[key(bitset)] pub enum B2 { V0, V1 }
pub const K_B2: [B2; 2] = [B2::V0, B2::V1];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
#[key(bitset)] pub enum B3 { V0, V1, V2 }
pub const K_B3: [B3; 3] = [B3::V0, B3::V1, B3::V2];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
#[key(bitset)] pub enum B4 { V0, V1, V2, V3 }
pub const K_B4: [B4; 4] = [B4::V0, B4::V1, B4::V2, B4::V3];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
#[key(bitset)] pub enum B5 { V0, V1, V2, V3, V4 }
pub const K_B5: [B5; 5] = [B5::V0, B5::V1, B5::V2, B5::V3, B5::V4];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
#[key(bitset)] pub enum B7 { V0, V1, V2, V3, V4, V5, V6 }
pub const K_B7: [B7; 7] = [B7::V0, B7::V1, B7::V2, B7::V3, B7::V4, B7::V5, B7::V6];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
#[key(bitset)] pub enum B8 { V0, V1, V2, V3, V4, V5, V6, V7 }
pub const K_B8: [B8; 8] = [B8::V0, B8::V1, B8::V2, B8::V3, B8::V4, B8::V5, B8::V6, B8::V7];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
#[key(bitset)] pub enum B9 { V0, V1, V2, V3, V4, V5, V6, V7, V8 }
pub const K_B9: [B9; 9] = [B9::V0, B9::V1, B9::V2, B9::V3, B9::V4, B9::V5, B9::V6, B9::V7, B9::V8];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
#[key(bitset)] pub enum B15 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14 }
pub const K_B15: [B15; 15] = [B15::V0, B15::V1, B15::V2, B15::V3, B15::V4, B15::V5, B15::V6, B15::V7, B15::V8, B15::V9, B15::V10, B15::V11, B15::V12, B15::V13, B15::V14];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
#[key(bitset)] pub enum B16 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15 }
pub const K_B16: [B16; 16] = [B16::V0, B16::V1, B16::V2, B16::V3, B16::V4, B16::V5, B16::V6, B16::V7, B16::V8, B16::V9, B16::V10, B16::V11, B16::V12, B16::V13, B16::V14, B16::V15];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
#[key(bitset)] pub enum B17 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16 }
pub const K_B17: [B17; 17] = [B17::V0, B17::V1, B17::V2, B17::V3, B17::V4, B17::V5, B17::V6, B17::V7, B17::V8, B17::V9, B17::V10, B17::V11, B17::V12, B17::V13, B17::V14, B17::V15, B17::V16];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
#[key(bitset)] pub enum B31 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30 }
pub const K_B31: [B31; 31] = [B31::V0, B31::V1, B31::V2, B31::V3, B31::V4, B31::V5, B31::V6, B31::V7, B31::V8, B31::V9, B31::V10, B31::V11, B31::V12, B31::V13, B31::V14, B31::V15, B31::V16, B31::V17, B31::V18, B31::V19, B31::V20, B31::V21, B31::V22, B31::V23, B31::V24, B31::V25, B31::V26, B31::V27, B31::V28, B31::V29, B31::V30];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
#[key(bitset)] pub enum B32 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31 }
pub const K_B32: [B32; 32] = [B32::V0, B32::V1, B32::V2, B32::V3, B32::V4, B32::V5, B32::V6, B32::V7, B32::V8, B32::V9, B32::V10, B32::V11, B32::V12, B32::V13, B32::V14, B32::V15, B32::V16, B32::V17, B32::V18, B32::V19, B32::V20, B32::V21, B32::V22, B32::V23, B32::V24, B32::V25, B32::V26, B32::V27, B32::V28, B32::V29, B32::V30, B32::V31];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
#[key(bitset)] pub enum B33 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32 }
pub const K_B33: [B33; 33] = [B33::V0, B33::V1, B33::V2, B33::V3, B33::V4, B33::V5, B33::V6, B33::V7, B33::V8, B33::V9, B33::V10, B33::V11, B33::V12, B33::V13, B33::V14, B33::V15, B33::V16, B33::V17, B33::V18, B33::V19, B33::V20, B33::V21, B33::V22, B33::V23, B33::V24, B33::V25, B33::V26, B33::V27, B33::V28, B33::V29, B33::V30, B33::V31, B33::V32];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
#[key(bitset)] pub enum B63 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62 }
pub const K_B63: [B63; 63] = [B63::V0, B63::V1, B63::V2, B63::V3, B63::V4, B63::V5, B63::V6, B63::V7, B63::V8, B63::V9, B63::V10, B63::V11, B63::V12, B63::V13, B63::V14, B63::V15, B63::V16, B63::V17, B63::V18, B63::V19, B63::V20, B63::V21, B63::V22, B63::V23, B63::V24, B63::V25, B63::V26, B63::V27, B63::V28, B63::V29, B63::V30, B63::V31, B63::V32, B63::V33, B63::V34, B63::V35, B63::V36, B63::V37, B63::V38, B63::V39, B63::V40, B63::V41, B63::V42, B63::V43, B63::V44, B63::V45, B63::V46, B63::V47, B63::V48, B63::V49, B63::V50, B63::V51, B63::V52, B63::V53, B63::V54, B63::V55, B63::V56, B63::V57, B63::V58, B63::V59, B63::V60, B63::V61, B63::V62];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
#[key(bitset)] pub enum B64 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63 }
pub const K_B64: [B64; 64] = [B64::V0, B64::V1, B64::V2, B64::V3, B64::V4, B64::V5, B64::V6, B64::V7, B64::V8, B64::V9, B64::V10, B64::V11, B64::V12, B64::V13, B64::V14, B64::V15, B64::V16, B64::V17, B64::V18, B64::V19, B64::V20, B64::V21, B64::V22, B64::V23, B64::V24, B64::V25, B64::V26, B64::V27, B64::V28, B64::V29, B64::V30, B64::V31, B64::V32, B64::V33, B64::V34, B64::V35, B64::V36, B64::V37, B64::V38, B64::V39, B64::V40, B64::V41, B64::V42, B64::V43, B64::V44, B64::V45, B64::V46, B64::V47, B64::V48, B64::V49, B64::V50, B64::V51, B64::V52, B64::V53, B64::V54, B64::V55, B64::V56, B64::V57, B64::V58, B64::V59, B64::V60, B64::V61, B64::V62, B64::V63];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
#[key(bitset)] pub enum B65 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64 }
pub const K_B65: [B65; 65] = [B65::V0, B65::V1, B65::V2, B65::V3, B65::V4, B65::V5, B65::V6, B65::V7, B65::V8, B65::V9, B65::V10, B65::V11, B65::V12, B65::V13, B65::V14, B65::V15, B65::V16, B65::V17, B65::V18, B65::V19, B65::V20, B65::V21, B65::V22, B65::V23, B65::V24, B65::V25, B65::V26, B65::V27, B65::V28, B65::V29, B65::V30, B65::V31, B65::V32, B65::V33, B65::V34, B65::V35, B65::V36, B65::V37, B65::V38, B65::V39, B65::V40, B65::V41, B65::V42, B65::V43, B65::V44, B65::V45, B65::V46, B65::V47, B65::V48, B65::V49, B65::V50, B65::V51, B65::V52, B65::V53, B65::V54, B65::V55, B65::V56, B65::V57, B65::V58, B65::V59, B65::V60, B65::V61, B65::V62, B65::V63, B65::V64];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
#[key(bitset)] pub enum B127 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126 }
pub const K_B127: [B127; 127] = [B127::V0, B127::V1, B127::V2, B127::V3, B127::V4, B127::V5, B127::V6, B127::V7, B127::V8, B127::V9, B127::V10, B127::V11, B127::V12, B127::V13, B127::V14, B127::V15, B127::V16, B127::V17, B127::V18, B127::V19, B127::V20, B127::V21, B127::V22, B127::V23, B127::V24, B127::V25, B127::V26, B127::V27, B127::V28, B127::V29, B127::V30, B127::V31, B127::V32, B127::V33, B127::V34, B127::V35, B127::V36, B127::V37, B127::V38, B127::V39, B127::V40, B127::V41, B127::V42, B127::V43, B127::V44, B127::V45, B127::V46, B127::V47, B127::V48, B127::V49, B127::V50, B127::V51, B127::V52, B127::V53, B127::V54, B127::V55, B127::V56, B127::V57, B127::V58, B127::V59, B127::V60, B127::V61, B127::V62, B127::V63, B127::V64, B127::V65, B127::V66, B127::V67, B127::V68, B127::V69, B127::V70, B127::V71, B127::V72, B127::V73, B127::V74, B127::V75, B127::V76, B127::V77, B127::V78, B127::V79, B127::V80, B127::V81, B127::V82, B127::V83, B127::V84, B127::V85, B127::V86, B127::V87, B127::V88, B127::V89, B127::V90, B127::V91, B127::V92, B127::V93, B127::V94, B127::V95, B127::V96, B127::V97, B127::V98, B127::V99, B127::V100, B127::V101, B127::V102, B127::V103, B127::V104, B127::V105, B127::V106, B127::V107, B127::V108, B127::V109, B127::V110, B127::V111, B127::V112, B127::V113, B127::V114, B127::V115, B127::V116, B127::V117, B127::V118, B127::V119, B127::V120, B127::V121, B127::V122, B127::V123, B127::V124, B127::V125, B127::V126];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
#[key(bitset)] pub enum B128 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127 }
pub const K_B128: [B128; 128] = [B128::V0, B128::V1, B128::V2, B128::V3, B128::V4, B128::V5, B128::V6, B128::V7, B128::V8, B128::V9, B128::V10, B128::V11, B128::V12, B128::V13, B128::V14, B128::V15, B128::V16, B128::V17, B128::V18, B128::V19, B128::V20, B128::V21, B128::V22, B128::V23, B128::V24, B128::V25, B128::V26, B128::V27, B128::V28, B128::V29, B128::V30, B128::V31, B128::V32, B128::V33, B128::V34, B128::V35, B128::V36, B128::V37, B128::V38, B128::V39, B128::V40, B128::V41, B128::V42, B128::V43, B128::V44, B128::V45, B128::V46, B128::V47, B128::V48, B128::V49, B128::V50, B128::V51, B128::V52, B128::V53, B128::V54, B128::V55, B128::V56, B128::V57, B128::V58, B128::V59, B128::V60, B128::V61, B128::V62, B128::V63, B128::V64, B128::V65, B128::V66, B128::V67, B128::V68, B128::V69, B128::V70, B128::V71, B128::V72, B128::V73, B128::V74, B128::V75, B128::V76, B128::V77, B128::V78, B128::V79, B128::V80, B128::V81, B128::V82, B128::V83, B128::V84, B128::V85, B128::V86, B128::V87, B128::V88, B128::V89, B128::V90, B128::V91, B128::V92, B128::V93, B128::V94, B128::V95, B128::V96, B128::V97, B128::V98, B128::V99, B128::V100, B128::V101, B128::V102, B128::V103, B128::V104, B128::V105, B128::V106, B128::V107, B128::V108, B128::V109, B128::V110, B128::V111, B128::V112, B128::V113, B128::V114, B128::V115, B128::V116, B128::V117, B128::V118, B128::V119, B128::V120, B128::V121, B128::V122, B128::V123, B128::V124, B128::V125, B128::V126, B128::V127];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum U16 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15 }
pub const K_U16: [U16; 16] = [U16::V0, U16::V1, U16::V2, U16::V3, U16::V4, U16::V5, U16::V6, U16::V7, U16::V8, U16::V9, U16::V10, U16::V11, U16::V12, U16::V13, U16::V14, U16::V15];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum U17 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16 }
pub const K_U17: [U17; 17] = [U17::V0, U17::V1, U17::V2, U17::V3, U17::V4, U17::V5, U17::V6, U17::V7, U17::V8, U17::V9, U17::V10, U17::V11, U17::V12, U17::V13, U17::V14, U17::V15, U17::V16];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum U33 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32 }
pub const K_U33: [U33; 33] = [U33::V0, U33::V1, U33::V2, U33::V3, U33::V4, U33::V5, U33::V6, U33::V7, U33::V8, U33::V9, U33::V10, U33::V11, U33::V12, U33::V13, U33::V14, U33::V15, U33::V16, U33::V17, U33::V18, U33::V19, U33::V20, U33::V21, U33::V22, U33::V23, U33::V24, U33::V25, U33::V26, U33::V27, U33::V28, U33::V29, U33::V30, U33::V31, U33::V32];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum U65 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64 }
pub const K_U65: [U65; 65] = [U65::V0, U65::V1, U65::V2, U65::V3, U65::V4, U65::V5, U65::V6, U65::V7, U65::V8, U65::V9, U65::V10, U65::V11, U65::V12, U65::V13, U65::V14, U65::V15, U65::V16, U65::V17, U65::V18, U65::V19, U65::V20, U65::V21, U65::V22, U65::V23, U65::V24, U65::V25, U65::V26, U65::V27, U65::V28, U65::V29, U65::V30, U65::V31, U65::V32, U65::V33, U65::V34, U65::V35, U65::V36, U65::V37, U65::V38, U65::V39, U65::V40, U65::V41, U65::V42, U65::V43, U65::V44, U65::V45, U65::V46, U65::V47, U65::V48, U65::V49, U65::V50, U65::V51, U65::V52, U65::V53, U65::V54, U65::V55, U65::V56, U65::V57, U65::V58, U65::V59, U65::V60, U65::V61, U65::V62, U65::V63, U65::V64];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ci { X, Y(bool) }
pub const K_CI: [Ci; 3] = [Ci::X, Ci::Y(true), Ci::Y(false)];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ca { A, B(bool), C }
pub const K_CA: [Ca; 4] = [Ca::A, Ca::B(true), Ca::B(false), Ca::C];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cb { A(Option<bool>), B }
pub const K_CB: [Cb; 4] = [Cb::A(Some(true)), Cb::A(Some(false)), Cb::A(None), Cb::B];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cc { A(()), B(()), C }
pub const K_CC: [Cc; 3] = [Cc::A(()), Cc::B(()), Cc::C];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cd { A(U2), B(B2), C }
pub const K_CD: [Cd; 5] = [Cd::A(U2::V0), Cd::A(U2::V1), Cd::B(B2::V0), Cd::B(B2::V1), Cd::C];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ce { A, B(Ci) }
pub const K_CE: [Ce; 4] = [Ce::A, Ce::B(Ci::X), Ce::B(Ci::Y(true)), Ce::B(Ci::Y(false))];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cf { A(Option<U2>) }
pub const K_CF: [Cf; 3] = [Cf::A(Some(U2::V0)), Cf::A(Some(U2::V1)), Cf::A(None)];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cg { A, B(()), C, D(()), E }
pub const K_CG: [Cg; 5] = [Cg::A, Cg::B(()), Cg::C, Cg::D(()), Cg::E];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ch { A(Option<Ci>), B }
pub const K_CH: [Ch; 5] = [Ch::A(Some(Ci::X)), Ch::A(Some(Ci::Y(true))), Ch::A(Some(Ci::Y(false))), Ch::A(None), Ch::B];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cj { A(bool), B(bool) }
pub const K_CJ: [Cj; 4] = [Cj::A(true), Cj::A(false), Cj::B(true), Cj::B(false)];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ck { A, B(Option<()>) }
pub const K_CK: [Ck; 3] = [Ck::A, Ck::B(Some(())), Ck::B(None)];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cl { A(U1), B(U0), C(B1) }
pub const K_CL: [Cl; 2] = [Cl::A(U1::V0), Cl::C(B1::V0)];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cm { A, B(bool), C(Option<bool>), D(U2), E(()) }
pub const K_CM: [Cm; 9] = [Cm::A, Cm::B(true), Cm::B(false), Cm::C(Some(true)), Cm::C(Some(false)), Cm::C(None), Cm::D(U2::V0), Cm::D(U2::V1), Cm::E(())];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cn { A(Ca), B(Ci) }
pub const K_CN: [Cn; 7] = [Cn::A(Ca::A), Cn::A(Ca::B(true)), Cn::A(Ca::B(false)), Cn::A(Ca::C), Cn::B(Ci::X), Cn::B(Ci::Y(true)), Cn::B(Ci::Y(false))];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cs { A(bool) }
pub const K_CS: [Cs; 2] = [Cs::A(true), Cs::A(false)];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cu { A, B(()) }
pub const K_CU: [Cu; 2] = [Cu::A, Cu::B(())];

pub const K_BOOL: [bool; 2] = [true, false];
pub const K_OB: [Option<bool>; 3] = [Some(true), Some(false), None];
pub const K_OOB: [Option<Option<bool>>; 4] = [Some(Some(true)), Some(Some(false)), Some(None), None];
pub const K_ONE: [(); 1] = [()];
pub const K_OONE: [Option<()>; 2] = [Some(()), None];
pub const K_OU2: [Option<U2>; 3] = [Some(U2::V0), Some(U2::V1), None];
pub const K_OB2: [Option<B2>; 3] = [Some(B2::V0), Some(B2::V1), None];
pub const K_OCI: [Option<Ci>; 4] = [Some(Ci::X), Some(Ci::Y(true)), Some(Ci::Y(false)), None];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cp { A(U1), B(B1) }
pub const K_CP: [Cp; 2] = [Cp::A(U1::V0), Cp::B(B1::V0)];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cr { A(U1), B }
pub const K_CR: [Cr; 2] = [Cr::A(U1::V0), Cr::B];

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ct { A(U2), B }
pub const K_CT: [Ct; 3] = [Ct::A(U2::V0), Ct::A(U2::V1), Ct::B];

/// Many variants of every kind, so that the generated storage has many fields.
#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cx { A, B(bool), C, D(Option<bool>), E(()), F(U3), G, H(B3), I(Ci), J, K(Option<()>) }
pub const K_CX: [Cx; 21] = [
    Cx::A, Cx::B(true), Cx::B(false), Cx::C, Cx::D(Some(true)), Cx::D(Some(false)), Cx::D(None), Cx::E(()),
    Cx::F(U3::V0), Cx::F(U3::V1), Cx::F(U3::V2), Cx::G, Cx::H(B3::V0), Cx::H(B3::V1), Cx::H(B3::V2),
    Cx::I(Ci::X), Cx::I(Ci::Y(true)), Cx::I(Ci::Y(false)), Cx::J, Cx::K(Some(())), Cx::K(None),
];

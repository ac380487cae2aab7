//! The published token sheet (TI-Toolkit 8X.xml), written by tools/gen_sheet.py.
/// a token as it is from one OS on, to another
pub struct E {
    pub key: &'static [u8],
    pub since: (u32, &'static [u32]),
    pub until: Option<(u32, &'static [u32])>,
    /// pretty, accessible, TI ASCII
    pub text: [&'static str; 3],
}
pub static SHEET: &[E] = &[
    E { key: &[1], since: (10, &[1, 0]), until: None, text: ["►DMS", ">DMS", "05444D53"] },
    E { key: &[2], since: (10, &[1, 0]), until: None, text: ["►Dec", ">Dec", "05446563"] },
    E { key: &[3], since: (10, &[1, 0]), until: None, text: ["►Frac", ">Frac", "0546726163"] },
    E { key: &[4], since: (10, &[1, 0]), until: None, text: ["→", "->", "1C"] },
    E { key: &[5], since: (10, &[1, 0]), until: None, text: ["Boxplot", "Boxplot", "426F78706C6F74"] },
    E { key: &[6], since: (10, &[1, 0]), until: None, text: ["[", "[", "C1"] },
    E { key: &[7], since: (10, &[1, 0]), until: None, text: ["]", "]", "5D"] },
    E { key: &[8], since: (10, &[1, 0]), until: None, text: ["{", "{", "7B"] },
    E { key: &[9], since: (10, &[1, 0]), until: None, text: ["}", "}", "7D"] },
    E { key: &[10], since: (10, &[1, 0]), until: None, text: ["ʳ", "^^r", "15"] },
    E { key: &[11], since: (10, &[1, 0]), until: None, text: ["°", "^^o", "14"] },
    E { key: &[12], since: (10, &[1, 0]), until: None, text: ["⁻¹", "^^-1", "11"] },
    E { key: &[13], since: (10, &[1, 0]), until: None, text: ["²", "^^2", "12"] },
    E { key: &[14], since: (10, &[1, 0]), until: None, text: ["ᵀ", "^^T", "16"] },
    E { key: &[15], since: (10, &[1, 0]), until: None, text: ["³", "^^3", "D5"] },
    E { key: &[16], since: (10, &[1, 0]), until: None, text: ["(", "(", "28"] },
    E { key: &[17], since: (10, &[1, 0]), until: None, text: [")", ")", "29"] },
    E { key: &[18], since: (10, &[1, 0]), until: None, text: ["round(", "round(", "726F756E6428"] },
    E { key: &[19], since: (10, &[1, 0]), until: None, text: ["pxl-Test(", "pxl-Test(", "70786C2D5465737428"] },
    E { key: &[20], since: (10, &[1, 0]), until: None, text: ["augment(", "augment(", "6175676D656E7428"] },
    E { key: &[21], since: (10, &[1, 0]), until: None, text: ["rowSwap(", "rowSwap(", "726F775377617028"] },
    E { key: &[22], since: (10, &[1, 0]), until: None, text: ["row+(", "row+(", "726F772B28"] },
    E { key: &[23], since: (10, &[1, 0]), until: None, text: ["*row(", "*row(", "2A726F7728"] },
    E { key: &[24], since: (10, &[1, 0]), until: None, text: ["*row+(", "*row+(", "2A726F772B28"] },
    E { key: &[25], since: (10, &[1, 0]), until: None, text: ["max(", "max(", "6D617828"] },
    E { key: &[26], since: (10, &[1, 0]), until: None, text: ["min(", "min(", "6D696E28"] },
    E { key: &[27], since: (10, &[1, 0]), until: None, text: ["R►Pr(", "R>Pr(", "5205507228"] },
    E { key: &[28], since: (10, &[1, 0]), until: None, text: ["R►Pθ(", "R>Ptheta(", "5205505B28"] },
    E { key: &[29], since: (10, &[1, 0]), until: None, text: ["P►Rx(", "P>Rx(", "5005527828"] },
    E { key: &[30], since: (10, &[1, 0]), until: None, text: ["P►Ry(", "P>Ry(", "5005527928"] },
    E { key: &[31], since: (10, &[1, 0]), until: None, text: ["median(", "median(", "6D656469616E28"] },
    E { key: &[32], since: (10, &[1, 0]), until: None, text: ["randM(", "randM(", "72616E644D28"] },
    E { key: &[33], since: (10, &[1, 0]), until: None, text: ["mean(", "mean(", "6D65616E28"] },
    E { key: &[34], since: (10, &[1, 0]), until: None, text: ["solve(", "solve(", "736F6C766528"] },
    E { key: &[35], since: (10, &[1, 0]), until: None, text: ["seq(", "seq(", "73657128"] },
    E { key: &[36], since: (10, &[1, 0]), until: None, text: ["fnInt(", "fnInt(", "666E496E7428"] },
    E { key: &[37], since: (10, &[1, 0]), until: None, text: ["nDeriv(", "nDeriv(", "6E446572697628"] },
    E { key: &[39], since: (10, &[1, 0]), until: None, text: ["fMin(", "fMin(", "664D696E28"] },
    E { key: &[40], since: (10, &[1, 0]), until: None, text: ["fMax(", "fMax(", "664D617828"] },
    E { key: &[41], since: (10, &[1, 0]), until: None, text: [" ", " ", "20"] },
    E { key: &[42], since: (10, &[1, 0]), until: None, text: ["\"", "\"", "22"] },
    E { key: &[43], since: (10, &[1, 0]), until: None, text: [",", ",", "2C"] },
    E { key: &[44], since: (10, &[1, 0]), until: None, text: ["𝑖", "[i]", "D7"] },
    E { key: &[45], since: (10, &[1, 0]), until: None, text: ["!", "!", "21"] },
    E { key: &[46], since: (10, &[1, 0]), until: None, text: ["CubicReg ", "CubicReg ", "437562696352656720"] },
    E { key: &[47], since: (10, &[1, 0]), until: None, text: ["QuartReg ", "QuartReg ", "517561727452656720"] },
    E { key: &[48], since: (10, &[1, 0]), until: None, text: ["0", "0", "30"] },
    E { key: &[49], since: (10, &[1, 0]), until: None, text: ["1", "1", "31"] },
    E { key: &[50], since: (10, &[1, 0]), until: None, text: ["2", "2", "32"] },
    E { key: &[51], since: (10, &[1, 0]), until: None, text: ["3", "3", "33"] },
    E { key: &[52], since: (10, &[1, 0]), until: None, text: ["4", "4", "34"] },
    E { key: &[53], since: (10, &[1, 0]), until: None, text: ["5", "5", "35"] },
    E { key: &[54], since: (10, &[1, 0]), until: None, text: ["6", "6", "36"] },
    E { key: &[55], since: (10, &[1, 0]), until: None, text: ["7", "7", "37"] },
    E { key: &[56], since: (10, &[1, 0]), until: None, text: ["8", "8", "38"] },
    E { key: &[57], since: (10, &[1, 0]), until: None, text: ["9", "9", "39"] },
    E { key: &[58], since: (10, &[1, 0]), until: None, text: [".", ".", "2E"] },
    E { key: &[59], since: (10, &[1, 0]), until: None, text: ["ᴇ", "|E", "1B"] },
    E { key: &[60], since: (10, &[1, 0]), until: None, text: [" or ", " or ", "206F7220"] },
    E { key: &[61], since: (10, &[1, 0]), until: None, text: [" xor ", " xor ", "20786F7220"] },
    E { key: &[62], since: (10, &[1, 0]), until: None, text: [":", ":", "3A"] },
    E { key: &[63], since: (10, &[1, 0]), until: None, text: ["\n", "\n", "D6"] },
    E { key: &[64], since: (10, &[1, 0]), until: None, text: [" and ", " and ", "20616E6420"] },
    E { key: &[65], since: (10, &[1, 0]), until: None, text: ["A", "A", "41"] },
    E { key: &[66], since: (10, &[1, 0]), until: None, text: ["B", "B", "42"] },
    E { key: &[67], since: (10, &[1, 0]), until: None, text: ["C", "C", "43"] },
    E { key: &[68], since: (10, &[1, 0]), until: None, text: ["D", "D", "44"] },
    E { key: &[69], since: (10, &[1, 0]), until: None, text: ["E", "E", "45"] },
    E { key: &[70], since: (10, &[1, 0]), until: None, text: ["F", "F", "46"] },
    E { key: &[71], since: (10, &[1, 0]), until: None, text: ["G", "G", "47"] },
    E { key: &[72], since: (10, &[1, 0]), until: None, text: ["H", "H", "48"] },
    E { key: &[73], since: (10, &[1, 0]), until: None, text: ["I", "I", "49"] },
    E { key: &[74], since: (10, &[1, 0]), until: None, text: ["J", "J", "4A"] },
    E { key: &[75], since: (10, &[1, 0]), until: None, text: ["K", "K", "4B"] },
    E { key: &[76], since: (10, &[1, 0]), until: None, text: ["L", "L", "4C"] },
    E { key: &[77], since: (10, &[1, 0]), until: None, text: ["M", "M", "4D"] },
    E { key: &[78], since: (10, &[1, 0]), until: None, text: ["N", "N", "4E"] },
    E { key: &[79], since: (10, &[1, 0]), until: None, text: ["O", "O", "4F"] },
    E { key: &[80], since: (10, &[1, 0]), until: None, text: ["P", "P", "50"] },
    E { key: &[81], since: (10, &[1, 0]), until: None, text: ["Q", "Q", "51"] },
    E { key: &[82], since: (10, &[1, 0]), until: None, text: ["R", "R", "52"] },
    E { key: &[83], since: (10, &[1, 0]), until: None, text: ["S", "S", "53"] },
    E { key: &[84], since: (10, &[1, 0]), until: None, text: ["T", "T", "54"] },
    E { key: &[85], since: (10, &[1, 0]), until: None, text: ["U", "U", "55"] },
    E { key: &[86], since: (10, &[1, 0]), until: None, text: ["V", "V", "56"] },
    E { key: &[87], since: (10, &[1, 0]), until: None, text: ["W", "W", "57"] },
    E { key: &[88], since: (10, &[1, 0]), until: None, text: ["X", "X", "58"] },
    E { key: &[89], since: (10, &[1, 0]), until: None, text: ["Y", "Y", "59"] },
    E { key: &[90], since: (10, &[1, 0]), until: None, text: ["Z", "Z", "5A"] },
    E { key: &[91], since: (10, &[1, 0]), until: None, text: ["θ", "theta", "5B"] },
    E { key: &[92, 0], since: (10, &[1, 0]), until: None, text: ["[A]", "[A]", "C1415D"] },
    E { key: &[92, 1], since: (10, &[1, 0]), until: None, text: ["[B]", "[B]", "C1425D"] },
    E { key: &[92, 2], since: (10, &[1, 0]), until: None, text: ["[C]", "[C]", "C1435D"] },
    E { key: &[92, 3], since: (10, &[1, 0]), until: None, text: ["[D]", "[D]", "C1445D"] },
    E { key: &[92, 4], since: (10, &[1, 0]), until: None, text: ["[E]", "[E]", "C1455D"] },
    E { key: &[92, 5], since: (20, &[0, 1013]), until: None, text: ["[F]", "[F]", "C1465D"] },
    E { key: &[92, 6], since: (20, &[0, 1013]), until: None, text: ["[G]", "[G]", "C1475D"] },
    E { key: &[92, 7], since: (20, &[0, 1013]), until: None, text: ["[H]", "[H]", "C1485D"] },
    E { key: &[92, 8], since: (20, &[0, 1013]), until: None, text: ["[I]", "[I]", "C1495D"] },
    E { key: &[92, 9], since: (20, &[0, 1013]), until: None, text: ["[J]", "[J]", "C14A5D"] },
    E { key: &[93, 0], since: (10, &[1, 0]), until: None, text: ["L₁", "L1", "4C81"] },
    E { key: &[93, 1], since: (10, &[1, 0]), until: None, text: ["L₂", "L2", "4C82"] },
    E { key: &[93, 2], since: (10, &[1, 0]), until: None, text: ["L₃", "L3", "4C83"] },
    E { key: &[93, 3], since: (10, &[1, 0]), until: None, text: ["L₄", "L4", "4C84"] },
    E { key: &[93, 4], since: (10, &[1, 0]), until: None, text: ["L₅", "L5", "4C85"] },
    E { key: &[93, 5], since: (10, &[1, 0]), until: None, text: ["L₆", "L6", "4C86"] },
    E { key: &[94, 16], since: (10, &[1, 0]), until: None, text: ["Y₁", "{Y1}", "5981"] },
    E { key: &[94, 17], since: (10, &[1, 0]), until: None, text: ["Y₂", "{Y2}", "5983"] },
    E { key: &[94, 18], since: (10, &[1, 0]), until: None, text: ["Y₃", "{Y3}", "5984"] },
    E { key: &[94, 19], since: (10, &[1, 0]), until: None, text: ["Y₄", "{Y4}", "5985"] },
    E { key: &[94, 20], since: (10, &[1, 0]), until: None, text: ["Y₅", "{Y5}", "5986"] },
    E { key: &[94, 21], since: (10, &[1, 0]), until: None, text: ["Y₆", "{Y6}", "5986"] },
    E { key: &[94, 22], since: (10, &[1, 0]), until: None, text: ["Y₇", "{Y7}", "5987"] },
    E { key: &[94, 23], since: (10, &[1, 0]), until: None, text: ["Y₈", "{Y8}", "5988"] },
    E { key: &[94, 24], since: (10, &[1, 0]), until: None, text: ["Y₉", "{Y9}", "5989"] },
    E { key: &[94, 25], since: (10, &[1, 0]), until: None, text: ["Y₀", "{Y0}", "5980"] },
    E { key: &[94, 32], since: (10, &[1, 0]), until: None, text: ["X₁ᴛ", "{X1T}", "58810D"] },
    E { key: &[94, 33], since: (10, &[1, 0]), until: None, text: ["Y₁ᴛ", "{Y1T}", "59810D"] },
    E { key: &[94, 34], since: (10, &[1, 0]), until: None, text: ["X₂ᴛ", "{X2T}", "58820D"] },
    E { key: &[94, 35], since: (10, &[1, 0]), until: None, text: ["Y₂ᴛ", "{Y2T}", "59820D"] },
    E { key: &[94, 36], since: (10, &[1, 0]), until: None, text: ["X₃ᴛ", "{X3T}", "58830D"] },
    E { key: &[94, 37], since: (10, &[1, 0]), until: None, text: ["Y₃ᴛ", "{Y3T}", "59830D"] },
    E { key: &[94, 38], since: (10, &[1, 0]), until: None, text: ["X₄ᴛ", "{X4T}", "58840D"] },
    E { key: &[94, 39], since: (10, &[1, 0]), until: None, text: ["Y₄ᴛ", "{Y4T}", "59840D"] },
    E { key: &[94, 40], since: (10, &[1, 0]), until: None, text: ["X₅ᴛ", "{X5T}", "58850D"] },
    E { key: &[94, 41], since: (10, &[1, 0]), until: None, text: ["Y₅ᴛ", "{Y5T}", "59850D"] },
    E { key: &[94, 42], since: (10, &[1, 0]), until: None, text: ["X₆ᴛ", "{X6T}", "58860D"] },
    E { key: &[94, 43], since: (10, &[1, 0]), until: None, text: ["Y₆ᴛ", "{Y6T}", "59860D"] },
    E { key: &[94, 64], since: (10, &[1, 0]), until: None, text: ["r₁", "{r1}", "7281"] },
    E { key: &[94, 65], since: (10, &[1, 0]), until: None, text: ["r₂", "{r2}", "7282"] },
    E { key: &[94, 66], since: (10, &[1, 0]), until: None, text: ["r₃", "{r3}", "7283"] },
    E { key: &[94, 67], since: (10, &[1, 0]), until: None, text: ["r₄", "{r4}", "7284"] },
    E { key: &[94, 68], since: (10, &[1, 0]), until: None, text: ["r₅", "{r5}", "7285"] },
    E { key: &[94, 69], since: (10, &[1, 0]), until: None, text: ["r₆", "{r6}", "7286"] },
    E { key: &[94, 128], since: (10, &[1, 0]), until: None, text: ["u", "|u", "75"] },
    E { key: &[94, 129], since: (10, &[1, 0]), until: None, text: ["v", "|v", "76"] },
    E { key: &[94, 130], since: (10, &[1, 0]), until: None, text: ["w", "|w", "77"] },
    E { key: &[95], since: (10, &[1, 0]), until: None, text: ["prgm", "prgm", "7072676D"] },
    E { key: &[96, 0], since: (10, &[1, 0]), until: None, text: ["Pic1", "Pic1", "50696331"] },
    E { key: &[96, 1], since: (10, &[1, 0]), until: None, text: ["Pic2", "Pic2", "50696332"] },
    E { key: &[96, 2], since: (10, &[1, 0]), until: None, text: ["Pic3", "Pic3", "50696333"] },
    E { key: &[96, 3], since: (10, &[1, 0]), until: None, text: ["Pic4", "Pic4", "50696334"] },
    E { key: &[96, 4], since: (10, &[1, 0]), until: None, text: ["Pic5", "Pic5", "50696335"] },
    E { key: &[96, 5], since: (10, &[1, 0]), until: None, text: ["Pic6", "Pic6", "50696336"] },
    E { key: &[96, 6], since: (20, &[0, 1013]), until: None, text: ["Pic7", "Pic7", "50696337"] },
    E { key: &[96, 7], since: (20, &[0, 1013]), until: None, text: ["Pic8", "Pic8", "50696338"] },
    E { key: &[96, 8], since: (20, &[0, 1013]), until: None, text: ["Pic9", "Pic9", "50696339"] },
    E { key: &[96, 9], since: (20, &[0, 1013]), until: None, text: ["Pic0", "Pic0", "50696330"] },
    E { key: &[97, 0], since: (10, &[1, 0]), until: None, text: ["GDB1", "GDB1", "47444231"] },
    E { key: &[97, 1], since: (10, &[1, 0]), until: None, text: ["GDB2", "GDB2", "47444232"] },
    E { key: &[97, 2], since: (10, &[1, 0]), until: None, text: ["GDB3", "GDB3", "47444233"] },
    E { key: &[97, 3], since: (10, &[1, 0]), until: None, text: ["GDB4", "GDB4", "47444234"] },
    E { key: &[97, 4], since: (10, &[1, 0]), until: None, text: ["GDB5", "GDB5", "47444235"] },
    E { key: &[97, 5], since: (10, &[1, 0]), until: None, text: ["GDB6", "GDB6", "47444236"] },
    E { key: &[97, 6], since: (20, &[0, 1013]), until: None, text: ["GDB7", "GDB7", "47444237"] },
    E { key: &[97, 7], since: (20, &[0, 1013]), until: None, text: ["GDB8", "GDB8", "47444238"] },
    E { key: &[97, 8], since: (20, &[0, 1013]), until: None, text: ["GDB9", "GDB9", "47444239"] },
    E { key: &[97, 9], since: (20, &[0, 1013]), until: None, text: ["GDB0", "GDB0", "47444230"] },
    E { key: &[98, 1], since: (10, &[1, 0]), until: None, text: ["RegEQ", "[RegEQ]", "5265674551"] },
    E { key: &[98, 2], since: (10, &[1, 0]), until: None, text: ["n", "[n]", "6E"] },
    E { key: &[98, 3], since: (10, &[1, 0]), until: None, text: ["x̄", "[xhat]", "CB"] },
    E { key: &[98, 4], since: (10, &[1, 0]), until: None, text: ["Σx", "[Sigmax]", "C678"] },
    E { key: &[98, 5], since: (10, &[1, 0]), until: None, text: ["Σx²", "[Sigmax^2]", "C67812"] },
    E { key: &[98, 6], since: (10, &[1, 0]), until: None, text: ["Sx", "[Sx]", "5378"] },
    E { key: &[98, 7], since: (10, &[1, 0]), until: None, text: ["σx", "[sigmax]", "C778"] },
    E { key: &[98, 8], since: (10, &[1, 0]), until: None, text: ["minX", "[minX]", "6D696E58"] },
    E { key: &[98, 9], since: (10, &[1, 0]), until: None, text: ["maxX", "[maxX]", "6D617858"] },
    E { key: &[98, 10], since: (10, &[1, 0]), until: None, text: ["minY", "[minY]", "6D696E59"] },
    E { key: &[98, 11], since: (10, &[1, 0]), until: None, text: ["maxY", "[maxY]", "6D617859"] },
    E { key: &[98, 12], since: (10, &[1, 0]), until: None, text: ["ȳ", "[yhat]", "CC"] },
    E { key: &[98, 13], since: (10, &[1, 0]), until: None, text: ["Σy", "[Sigmay]", "C679"] },
    E { key: &[98, 14], since: (10, &[1, 0]), until: None, text: ["Σy²", "[Sigmay^2]", "C67912"] },
    E { key: &[98, 15], since: (10, &[1, 0]), until: None, text: ["Sy", "[Sy]", "5379"] },
    E { key: &[98, 16], since: (10, &[1, 0]), until: None, text: ["σy", "[sigmay]", "C779"] },
    E { key: &[98, 17], since: (10, &[1, 0]), until: None, text: ["Σxy", "[Sigmaxy]", "C67879"] },
    E { key: &[98, 18], since: (10, &[1, 0]), until: None, text: ["r", "[r]", "72"] },
    E { key: &[98, 19], since: (10, &[1, 0]), until: None, text: ["Med", "[Med]", "4D6564"] },
    E { key: &[98, 20], since: (10, &[1, 0]), until: None, text: ["Q₁", "[Q1]", "5181"] },
    E { key: &[98, 21], since: (10, &[1, 0]), until: None, text: ["Q₃", "[Q3]", "5183"] },
    E { key: &[98, 22], since: (10, &[1, 0]), until: None, text: ["a", "[|a]", "61"] },
    E { key: &[98, 23], since: (10, &[1, 0]), until: None, text: ["b", "[|b]", "62"] },
    E { key: &[98, 24], since: (10, &[1, 0]), until: None, text: ["c", "[|c]", "63"] },
    E { key: &[98, 25], since: (10, &[1, 0]), until: None, text: ["d", "[|d]", "64"] },
    E { key: &[98, 26], since: (10, &[1, 0]), until: None, text: ["e", "[|e]", "65"] },
    E { key: &[98, 27], since: (10, &[1, 0]), until: None, text: ["x₁", "[x1]", "7881"] },
    E { key: &[98, 28], since: (10, &[1, 0]), until: None, text: ["x₂", "[x2]", "7882"] },
    E { key: &[98, 29], since: (10, &[1, 0]), until: None, text: ["x₃", "[x3]", "7883"] },
    E { key: &[98, 30], since: (10, &[1, 0]), until: None, text: ["y₁", "[y1]", "7981"] },
    E { key: &[98, 31], since: (10, &[1, 0]), until: None, text: ["y₂", "[y2]", "7982"] },
    E { key: &[98, 32], since: (10, &[1, 0]), until: None, text: ["y₃", "[y3]", "7983"] },
    E { key: &[98, 33], since: (10, &[1, 0]), until: None, text: ["𝑛", "[recursiven]", "01"] },
    E { key: &[98, 34], since: (10, &[1, 0]), until: None, text: ["p", "[p]", "70"] },
    E { key: &[98, 35], since: (10, &[1, 0]), until: None, text: ["z", "[z]", "7A"] },
    E { key: &[98, 36], since: (10, &[1, 0]), until: None, text: ["t", "[t]", "74"] },
    E { key: &[98, 37], since: (10, &[1, 0]), until: None, text: ["χ²", "[chi^2]", "D912"] },
    E { key: &[98, 38], since: (10, &[1, 0]), until: None, text: ["𝙵", "[|F]", "DA"] },
    E { key: &[98, 39], since: (10, &[1, 0]), until: None, text: ["df", "[df]", "6466"] },
    E { key: &[98, 40], since: (10, &[1, 0]), until: None, text: ["p̂", "[phat]", "D8"] },
    E { key: &[98, 41], since: (10, &[1, 0]), until: None, text: ["p̂₁", "[phat1]", "D881"] },
    E { key: &[98, 42], since: (10, &[1, 0]), until: None, text: ["p̂₂", "[phat2]", "D882"] },
    E { key: &[98, 43], since: (10, &[1, 0]), until: None, text: ["x̄₁", "[xhat1]", "CB81"] },
    E { key: &[98, 44], since: (10, &[1, 0]), until: None, text: ["Sx₁", "[Sx1]", "537881"] },
    E { key: &[98, 45], since: (10, &[1, 0]), until: None, text: ["n₁", "[n1]", "6E81"] },
    E { key: &[98, 46], since: (10, &[1, 0]), until: None, text: ["x̄₂", "[xhat2]", "CB82"] },
    E { key: &[98, 47], since: (10, &[1, 0]), until: None, text: ["Sx₂", "[Sx2]", "537882"] },
    E { key: &[98, 48], since: (10, &[1, 0]), until: None, text: ["n₂", "[n2]", "6E82"] },
    E { key: &[98, 49], since: (10, &[1, 0]), until: None, text: ["Sxp", "[Sxp]", "537870"] },
    E { key: &[98, 50], since: (10, &[1, 0]), until: None, text: ["lower", "[lower]", "6C6F776572"] },
    E { key: &[98, 51], since: (10, &[1, 0]), until: None, text: ["upper", "[upper]", "7570706572"] },
    E { key: &[98, 52], since: (10, &[1, 0]), until: None, text: ["s", "[s]", "73"] },
    E { key: &[98, 53], since: (10, &[1, 0]), until: None, text: ["r²", "[r^2]", "7212"] },
    E { key: &[98, 54], since: (10, &[1, 0]), until: None, text: ["R²", "[R^2]", "5212"] },
    E { key: &[98, 55], since: (10, &[1, 0]), until: None, text: ["df", "[factordf]", "6466"] },
    E { key: &[98, 56], since: (10, &[1, 0]), until: None, text: ["SS", "[factorSS]", "5353"] },
    E { key: &[98, 57], since: (10, &[1, 0]), until: None, text: ["MS", "[factorMS]", "4D53"] },
    E { key: &[98, 58], since: (10, &[1, 0]), until: None, text: ["df", "[errordf]", "6466"] },
    E { key: &[98, 59], since: (10, &[1, 0]), until: None, text: ["SS", "[errorSS]", "5353"] },
    E { key: &[98, 60], since: (10, &[1, 0]), until: None, text: ["MS", "[errorMS]", "4D53"] },
    E { key: &[99, 0], since: (10, &[1, 0]), until: None, text: ["ZXscl", "ZXscl", "5A5873636C"] },
    E { key: &[99, 1], since: (10, &[1, 0]), until: None, text: ["ZYscl", "ZYscl", "5A5973636C"] },
    E { key: &[99, 2], since: (10, &[1, 0]), until: None, text: ["Xscl", "Xscl", "5873636C"] },
    E { key: &[99, 3], since: (10, &[1, 0]), until: None, text: ["Yscl", "Yscl", "5973636C"] },
    E { key: &[99, 4], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["UnStart", "UnStart", "556E5374617274"] },
    E { key: &[99, 4], since: (20, &[0, 1013]), until: None, text: ["u(𝑛Min)", "u(nMin)", "7528014D696E29"] },
    E { key: &[99, 5], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["VnStart", "VnStart", "56015374617274"] },
    E { key: &[99, 5], since: (20, &[0, 1013]), until: None, text: ["v(𝑛Min)", "v(nMin)", "7628014D696E29"] },
    E { key: &[99, 6], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["U𝑛-₁", "Un-1", "55012D81"] },
    E { key: &[99, 6], since: (20, &[1, 10]), until: None, text: ["U𝑛-₁", "Un-1", "55012D81"] },
    E { key: &[99, 7], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["V𝑛-₁", "Vn-1", "56012D81"] },
    E { key: &[99, 7], since: (20, &[1, 10]), until: None, text: ["V𝑛-₁", "Vn-1", "56012D81"] },
    E { key: &[99, 8], since: (10, &[1, 0]), until: None, text: ["Zu(𝑛Min)", "Zu(nMin)", "5A7528014D696E29"] },
    E { key: &[99, 9], since: (10, &[1, 0]), until: None, text: ["Zv(𝑛Min)", "Zv(nMin)", "5A7628014D696E29"] },
    E { key: &[99, 10], since: (10, &[1, 0]), until: None, text: ["Xmin", "Xmin", "586D696E"] },
    E { key: &[99, 11], since: (10, &[1, 0]), until: None, text: ["Xmax", "Xmax", "586D6178"] },
    E { key: &[99, 12], since: (10, &[1, 0]), until: None, text: ["Ymin", "Ymin", "596D696E"] },
    E { key: &[99, 13], since: (10, &[1, 0]), until: None, text: ["Ymax", "Ymax", "596D6178"] },
    E { key: &[99, 14], since: (10, &[1, 0]), until: None, text: ["Tmin", "Tmin", "546D696E"] },
    E { key: &[99, 15], since: (10, &[1, 0]), until: None, text: ["Tmax", "Tmax", "546D6178"] },
    E { key: &[99, 16], since: (10, &[1, 0]), until: None, text: ["θmin", "thetaMin", "5B6D696E"] },
    E { key: &[99, 17], since: (10, &[1, 0]), until: None, text: ["θmax", "thetaMax", "5B6D6178"] },
    E { key: &[99, 18], since: (10, &[1, 0]), until: None, text: ["ZXmin", "ZXmin", "5A586D696E"] },
    E { key: &[99, 19], since: (10, &[1, 0]), until: None, text: ["ZXmax", "ZXmax", "5A586D6178"] },
    E { key: &[99, 20], since: (10, &[1, 0]), until: None, text: ["ZYmin", "ZYmin", "5A596D696E"] },
    E { key: &[99, 21], since: (10, &[1, 0]), until: None, text: ["ZYmax", "ZYmax", "5A596D6178"] },
    E { key: &[99, 22], since: (10, &[1, 0]), until: None, text: ["Zθmin", "Zthetamin", "5A5B6D696E"] },
    E { key: &[99, 23], since: (10, &[1, 0]), until: None, text: ["Zθmax", "Zthetamax", "5A5B6D6178"] },
    E { key: &[99, 24], since: (10, &[1, 0]), until: None, text: ["ZTmin", "ZTmin", "5A546D696E"] },
    E { key: &[99, 25], since: (10, &[1, 0]), until: None, text: ["ZTmax", "ZTmax", "5A546D6178"] },
    E { key: &[99, 26], since: (10, &[1, 0]), until: None, text: ["TblStart", "TblStart", "54626C5374617274"] },
    E { key: &[99, 27], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["𝑛Min", "nMin", "014D696E"] },
    E { key: &[99, 27], since: (20, &[0, 1013]), until: None, text: ["PlotStart", "PlotStart", "506C6F745374617274"] },
    E { key: &[99, 28], since: (10, &[1, 0]), until: None, text: ["ZPlotStart", "ZPlotStart", "5A506C6F745374617274"] },
    E { key: &[99, 29], since: (10, &[1, 0]), until: None, text: ["𝑛Max", "nMax", "014D6178"] },
    E { key: &[99, 30], since: (10, &[1, 0]), until: None, text: ["Z𝑛Max", "ZnMax", "5A014D6178"] },
    E { key: &[99, 31], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["𝑛Start", "nStart", "015374617274"] },
    E { key: &[99, 31], since: (20, &[0, 1013]), until: None, text: ["𝑛Min", "nMin", "014D696E"] },
    E { key: &[99, 32], since: (10, &[1, 0]), until: None, text: ["Z𝑛Min", "ZnMin", "5A014D696E"] },
    E { key: &[99, 33], since: (10, &[1, 0]), until: None, text: ["ΔTbl", "DeltaTbl", "BE54626C"] },
    E { key: &[99, 34], since: (10, &[1, 0]), until: None, text: ["Tstep", "Tstep", "5473746570"] },
    E { key: &[99, 35], since: (10, &[1, 0]), until: None, text: ["θstep", "thetastep", "5B73746570"] },
    E { key: &[99, 36], since: (10, &[1, 0]), until: None, text: ["ZTstep", "ZTstep", "5A5473746570"] },
    E { key: &[99, 37], since: (10, &[1, 0]), until: None, text: ["Zθstep", "Zthetastep", "5A5B73746570"] },
    E { key: &[99, 38], since: (10, &[1, 0]), until: None, text: ["ΔX", "DeltaX", "BE58"] },
    E { key: &[99, 39], since: (10, &[1, 0]), until: None, text: ["ΔY", "DeltaY", "BE59"] },
    E { key: &[99, 40], since: (10, &[1, 0]), until: None, text: ["XFact", "XFact", "5846616374"] },
    E { key: &[99, 41], since: (10, &[1, 0]), until: None, text: ["YFact", "YFact", "5946616374"] },
    E { key: &[99, 42], since: (10, &[1, 0]), until: None, text: ["TblInput", "TblInput", "54626C496E707574"] },
    E { key: &[99, 43], since: (20, &[0, 1013]), until: None, text: ["𝗡", "|N", "DD"] },
    E { key: &[99, 44], since: (20, &[0, 1013]), until: None, text: ["I%", "I%", "4925"] },
    E { key: &[99, 45], since: (20, &[0, 1013]), until: None, text: ["PV", "PV", "5056"] },
    E { key: &[99, 46], since: (20, &[0, 1013]), until: None, text: ["PMT", "PMT", "504D54"] },
    E { key: &[99, 47], since: (20, &[0, 1013]), until: None, text: ["FV", "FV", "4656"] },
    E { key: &[99, 48], since: (20, &[0, 1013]), until: None, text: ["P/Y", "|P/Y", "502F59"] },
    E { key: &[99, 49], since: (20, &[0, 1013]), until: None, text: ["C/Y", "|C/Y", "432F59"] },
    E { key: &[99, 50], since: (20, &[0, 1013]), until: None, text: ["w(𝑛Min)", "w(nMin)", "7728014D696E29"] },
    E { key: &[99, 51], since: (20, &[0, 1013]), until: None, text: ["Zw(𝑛Min)", "Zw(nMin)", "5A7728014D696E29"] },
    E { key: &[99, 52], since: (20, &[0, 1013]), until: None, text: ["PlotStep", "PlotStep", "506C6F7453746570"] },
    E { key: &[99, 53], since: (20, &[0, 1013]), until: None, text: ["ZPlotStep", "ZPlotStep", "5A506C6F7453746570"] },
    E { key: &[99, 54], since: (20, &[0, 1013]), until: None, text: ["Xres", "Xres", "58726573"] },
    E { key: &[99, 55], since: (20, &[0, 1013]), until: None, text: ["ZXres", "ZXres", "5A58726573"] },
    E { key: &[99, 56], since: (50, &[4, 0]), until: None, text: ["TraceStep", "TraceStep", "547261636553746570"] },
    E { key: &[100], since: (10, &[1, 0]), until: None, text: ["Radian", "Radian", "52616469616E"] },
    E { key: &[101], since: (10, &[1, 0]), until: None, text: ["Degree", "Degree", "446567726565"] },
    E { key: &[102], since: (10, &[1, 0]), until: None, text: ["Normal", "Normal", "4E6F726D616C"] },
    E { key: &[103], since: (10, &[1, 0]), until: None, text: ["Sci", "Sci", "536369"] },
    E { key: &[104], since: (10, &[1, 0]), until: None, text: ["Eng", "Eng", "456E67"] },
    E { key: &[105], since: (10, &[1, 0]), until: None, text: ["Float", "Float", "466C6F6174"] },
    E { key: &[106], since: (10, &[1, 0]), until: None, text: ["=", "=", "3D"] },
    E { key: &[107], since: (10, &[1, 0]), until: None, text: ["<", "<", "3C"] },
    E { key: &[108], since: (10, &[1, 0]), until: None, text: [">", ">", "3E"] },
    E { key: &[109], since: (10, &[1, 0]), until: None, text: ["≤", "<=", "17"] },
    E { key: &[110], since: (10, &[1, 0]), until: None, text: ["≥", ">=", "19"] },
    E { key: &[111], since: (10, &[1, 0]), until: None, text: ["≠", "!=", "18"] },
    E { key: &[112], since: (10, &[1, 0]), until: None, text: ["+", "+", "2B"] },
    E { key: &[113], since: (10, &[1, 0]), until: None, text: ["-", "-", "2D"] },
    E { key: &[114], since: (10, &[1, 0]), until: None, text: ["Ans", "Ans", "416E73"] },
    E { key: &[115], since: (10, &[1, 0]), until: None, text: ["Fix ", "Fix ", "46697820"] },
    E { key: &[116], since: (10, &[1, 0]), until: None, text: ["Horiz", "Horiz", "486F72697A"] },
    E { key: &[117], since: (10, &[1, 0]), until: None, text: ["Full", "Full", "46756C6C"] },
    E { key: &[118], since: (10, &[1, 0]), until: None, text: ["Func", "Func", "46756E63"] },
    E { key: &[119], since: (10, &[1, 0]), until: None, text: ["Param", "Param", "506172616D"] },
    E { key: &[120], since: (10, &[1, 0]), until: None, text: ["Polar", "Polar", "506F6C6172"] },
    E { key: &[121], since: (10, &[1, 0]), until: None, text: ["Seq", "Seq", "536571"] },
    E { key: &[122], since: (10, &[1, 0]), until: None, text: ["IndpntAuto", "IndpntAuto", "496E64706E744175746F"] },
    E { key: &[123], since: (10, &[1, 0]), until: None, text: ["IndpntAsk", "IndpntAsk", "496E64706E7441736B"] },
    E { key: &[124], since: (10, &[1, 0]), until: None, text: ["DependAuto", "DependAuto", "446570656E644175746F"] },
    E { key: &[125], since: (10, &[1, 0]), until: None, text: ["DependAsk", "DependAsk", "446570656E6441736B"] },
    E { key: &[126, 0], since: (10, &[1, 0]), until: None, text: ["Sequential", "Sequential", "53657175656E7469616C"] },
    E { key: &[126, 1], since: (10, &[1, 0]), until: None, text: ["Simul", "Simul", "53696D756C"] },
    E { key: &[126, 2], since: (10, &[1, 0]), until: None, text: ["PolarGC", "PolarGC", "506F6C61724743"] },
    E { key: &[126, 3], since: (10, &[1, 0]), until: None, text: ["RectGC", "RectGC", "526563744743"] },
    E { key: &[126, 4], since: (10, &[1, 0]), until: None, text: ["CoordOn", "CoordOn", "436F6F72644F6E"] },
    E { key: &[126, 5], since: (10, &[1, 0]), until: None, text: ["CoordOff", "CoordOff", "436F6F72644F6666"] },
    E { key: &[126, 6], since: (10, &[1, 0]), until: Some((50, &[4, 0])), text: ["Connected", "Connected", "436F6E6E6563746564"] },
    E { key: &[126, 6], since: (50, &[4, 0]), until: None, text: ["Thick", "Thick", "546869636B"] },
    E { key: &[126, 7], since: (10, &[1, 0]), until: Some((50, &[4, 0])), text: ["Dot", "Dot", "446F74"] },
    E { key: &[126, 7], since: (50, &[4, 0]), until: None, text: ["Dot-Thick", "Dot-Thick", "446F742D546869636B"] },
    E { key: &[126, 8], since: (10, &[1, 0]), until: Some((50, &[4, 0])), text: ["AxesOn", "AxesOn", "417865734F6E"] },
    E { key: &[126, 8], since: (50, &[4, 0]), until: None, text: ["AxesOn ", "AxesOn ", "417865734F6E20"] },
    E { key: &[126, 9], since: (10, &[1, 0]), until: None, text: ["AxesOff", "AxesOff", "417865734F6666"] },
    E { key: &[126, 10], since: (10, &[1, 0]), until: Some((50, &[4, 0])), text: ["GridOn", "GridOn", "477269644F6E"] },
    E { key: &[126, 10], since: (50, &[4, 0]), until: None, text: ["GridDot ", "GridDot ", "47726964446F7420"] },
    E { key: &[126, 11], since: (10, &[1, 0]), until: None, text: ["GridOff", "GridOff", "477269644F6666"] },
    E { key: &[126, 12], since: (10, &[1, 0]), until: None, text: ["LabelOn", "LabelOn", "4C6162656C4F6E"] },
    E { key: &[126, 13], since: (10, &[1, 0]), until: None, text: ["LabelOff", "LabelOff", "4C6162656C4F6666"] },
    E { key: &[126, 14], since: (10, &[1, 0]), until: None, text: ["Web", "Web", "576562"] },
    E { key: &[126, 15], since: (10, &[1, 0]), until: None, text: ["Time", "Time", "54696D65"] },
    E { key: &[126, 16], since: (10, &[1, 0]), until: None, text: ["uvAxes", "uvAxes", "757641786573"] },
    E { key: &[126, 17], since: (10, &[1, 0]), until: None, text: ["vwAxes", "vwAxes", "767741786573"] },
    E { key: &[126, 18], since: (10, &[1, 0]), until: None, text: ["uwAxes", "uwAxes", "53696E52656720"] },
    E { key: &[127], since: (10, &[1, 0]), until: None, text: ["□", "squareplot", "0A"] },
    E { key: &[128], since: (10, &[1, 0]), until: None, text: ["﹢", "crossplot", "0B"] },
    E { key: &[129], since: (10, &[1, 0]), until: None, text: ["·", "dotplot", "0C"] },
    E { key: &[130], since: (10, &[1, 0]), until: None, text: ["*", "*", "2A"] },
    E { key: &[131], since: (10, &[1, 0]), until: None, text: ["/", "/", "2F"] },
    E { key: &[132], since: (10, &[1, 0]), until: None, text: ["Trace", "Trace", "5472616365"] },
    E { key: &[133], since: (10, &[1, 0]), until: None, text: ["ClrDraw", "ClrDraw", "436C7244726177"] },
    E { key: &[134], since: (10, &[1, 0]), until: None, text: ["ZStandard", "ZStandard", "5A5374616E64617264"] },
    E { key: &[135], since: (10, &[1, 0]), until: None, text: ["ZTrig", "ZTrig", "5A54726967"] },
    E { key: &[136], since: (10, &[1, 0]), until: None, text: ["ZBox", "ZBox", "5A426F78"] },
    E { key: &[137], since: (10, &[1, 0]), until: None, text: ["Zoom In", "Zoom In", "5A6F6F6D20496E"] },
    E { key: &[138], since: (10, &[1, 0]), until: None, text: ["Zoom Out", "Zoom Out", "5A6F6F6D204F7574"] },
    E { key: &[139], since: (10, &[1, 0]), until: None, text: ["ZSquare", "ZSquare", "5A537175617265"] },
    E { key: &[140], since: (10, &[1, 0]), until: None, text: ["ZInteger", "ZInteger", "5A496E7465676572"] },
    E { key: &[141], since: (10, &[1, 0]), until: None, text: ["ZPrevious", "ZPrevious", "5A50726576696F7573"] },
    E { key: &[142], since: (10, &[1, 0]), until: None, text: ["ZDecimal", "ZDecimal", "5A446563696D616C"] },
    E { key: &[143], since: (10, &[1, 0]), until: None, text: ["ZoomStat", "ZoomStat", "5A6F6F6D53746174"] },
    E { key: &[144], since: (10, &[1, 0]), until: None, text: ["ZoomRcl", "ZoomRcl", "5A6F6F6D52636C"] },
    E { key: &[145], since: (10, &[1, 0]), until: None, text: ["PrintScreen", "PrintScreen", "5072696E7453637265656E"] },
    E { key: &[146], since: (10, &[1, 0]), until: None, text: ["ZoomSto", "ZoomSto", "5A6F6F6D53746F"] },
    E { key: &[147], since: (10, &[1, 0]), until: None, text: ["Text(", "Text(", "5465787428"] },
    E { key: &[148], since: (10, &[1, 0]), until: None, text: [" nPr ", " nPr ", "206E507220"] },
    E { key: &[149], since: (10, &[1, 0]), until: None, text: [" nCr ", " nCr ", "206E437220"] },
    E { key: &[150], since: (10, &[1, 0]), until: None, text: ["FnOn ", "FnOn ", "466E4F6E20"] },
    E { key: &[151], since: (10, &[1, 0]), until: None, text: ["FnOff ", "FnOff ", "466E4F666620"] },
    E { key: &[152], since: (10, &[1, 0]), until: None, text: ["StorePic ", "StorePic ", "53746F726550696320"] },
    E { key: &[153], since: (10, &[1, 0]), until: None, text: ["RecallPic ", "RecallPic ", "526563616C6C50696320"] },
    E { key: &[154], since: (10, &[1, 0]), until: None, text: ["StoreGDB ", "StoreGDB ", "53746F726547444220"] },
    E { key: &[155], since: (10, &[1, 0]), until: None, text: ["RecallGDB ", "RecallGDB ", "526563616C6C47444220"] },
    E { key: &[156], since: (10, &[1, 0]), until: None, text: ["Line(", "Line(", "4C696E6528"] },
    E { key: &[157], since: (10, &[1, 0]), until: None, text: ["Vertical ", "Vertical ", "566572746963616C20"] },
    E { key: &[158], since: (10, &[1, 0]), until: None, text: ["Pt-On(", "Pt-On(", "50742D4F6E28"] },
    E { key: &[159], since: (10, &[1, 0]), until: None, text: ["Pt-Off(", "Pt-Off(", "50742D4F666628"] },
    E { key: &[160], since: (10, &[1, 0]), until: None, text: ["Pt-Change(", "Pt-Change(", "50742D4368616E676528"] },
    E { key: &[161], since: (10, &[1, 0]), until: None, text: ["Pxl-On(", "Pxl-On(", "50786C2D4F6E28"] },
    E { key: &[162], since: (10, &[1, 0]), until: None, text: ["Pxl-Off(", "Pxl-Off(", "50786C2D4F666628"] },
    E { key: &[163], since: (10, &[1, 0]), until: None, text: ["Pxl-Change(", "Pxl-Change(", "50786C2D4368616E676528"] },
    E { key: &[164], since: (10, &[1, 0]), until: None, text: ["Shade(", "Shade(", "536861646528"] },
    E { key: &[165], since: (10, &[1, 0]), until: None, text: ["Circle(", "Circle(", "436972636C6528"] },
    E { key: &[166], since: (10, &[1, 0]), until: None, text: ["Horizontal ", "Horizontal ", "486F72697A6F6E74616C20"] },
    E { key: &[167], since: (10, &[1, 0]), until: None, text: ["Tangent(", "Tangent(", "54616E67656E7428"] },
    E { key: &[168], since: (10, &[1, 0]), until: None, text: ["DrawInv ", "DrawInv ", "44726177496E7620"] },
    E { key: &[169], since: (10, &[1, 0]), until: None, text: ["DrawF ", "DrawF ", "447261774620"] },
    E { key: &[170, 0], since: (20, &[0, 1013]), until: None, text: ["Str1", "Str1", "53747231"] },
    E { key: &[170, 1], since: (20, &[0, 1013]), until: None, text: ["Str2", "Str2", "53747232"] },
    E { key: &[170, 2], since: (20, &[0, 1013]), until: None, text: ["Str3", "Str3", "53747233"] },
    E { key: &[170, 3], since: (20, &[0, 1013]), until: None, text: ["Str4", "Str4", "53747234"] },
    E { key: &[170, 4], since: (20, &[0, 1013]), until: None, text: ["Str5", "Str5", "53747235"] },
    E { key: &[170, 5], since: (20, &[0, 1013]), until: None, text: ["Str6", "Str6", "53747236"] },
    E { key: &[170, 6], since: (20, &[0, 1013]), until: None, text: ["Str7", "Str7", "53747237"] },
    E { key: &[170, 7], since: (20, &[0, 1013]), until: None, text: ["Str8", "Str8", "53747238"] },
    E { key: &[170, 8], since: (20, &[0, 1013]), until: None, text: ["Str9", "Str9", "53747239"] },
    E { key: &[170, 9], since: (20, &[0, 1013]), until: None, text: ["Str0", "Str0", "53747230"] },
    E { key: &[171], since: (10, &[1, 0]), until: None, text: ["rand", "rand", "72616E64"] },
    E { key: &[172], since: (10, &[1, 0]), until: None, text: ["π", "pi", "C4"] },
    E { key: &[173], since: (10, &[1, 0]), until: None, text: ["getKey", "getKey", "6765744B6579"] },
    E { key: &[174], since: (10, &[1, 0]), until: None, text: ["\\'", "'", "27"] },
    E { key: &[175], since: (10, &[1, 0]), until: None, text: ["?", "?", "3F"] },
    E { key: &[176], since: (10, &[1, 0]), until: None, text: ["⁻", "~", "1A"] },
    E { key: &[177], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["int ", "int ", "696E7420"] },
    E { key: &[177], since: (20, &[0, 1013]), until: None, text: ["int(", "int(", "696E7428"] },
    E { key: &[178], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["abs ", "abs ", "61627320"] },
    E { key: &[178], since: (20, &[0, 1013]), until: None, text: ["abs(", "abs(", "61627328"] },
    E { key: &[179], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["det ", "det ", "64657420"] },
    E { key: &[179], since: (20, &[0, 1013]), until: None, text: ["det(", "det(", "64657428"] },
    E { key: &[180], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["identity ", "identity ", "6964656E7469747920"] },
    E { key: &[180], since: (20, &[0, 1013]), until: None, text: ["identity(", "identity(", "6964656E7469747928"] },
    E { key: &[181], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["dim ", "dim ", "64696D20"] },
    E { key: &[181], since: (20, &[0, 1013]), until: None, text: ["dim(", "dim(", "64696D28"] },
    E { key: &[182], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["sum ", "sum ", "73756D20"] },
    E { key: &[182], since: (20, &[0, 1013]), until: None, text: ["sum(", "sum(", "73756D28"] },
    E { key: &[183], since: (10, &[1, 0]), until: None, text: ["prod(", "prod(", "70726F6428"] },
    E { key: &[184], since: (10, &[1, 0]), until: None, text: ["not(", "not(", "6E6F7428"] },
    E { key: &[185], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["iPart ", "iPart ", "695061727420"] },
    E { key: &[185], since: (20, &[0, 1013]), until: None, text: ["iPart(", "iPart(", "695061727428"] },
    E { key: &[186], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["fPart ", "fPart ", "665061727420"] },
    E { key: &[186], since: (20, &[0, 1013]), until: None, text: ["fPart(", "fPart(", "665061727428"] },
    E { key: &[187, 0], since: (20, &[0, 1013]), until: None, text: ["npv(", "npv(", "6E707628"] },
    E { key: &[187, 1], since: (20, &[0, 1013]), until: None, text: ["irr(", "irr(", "69727228"] },
    E { key: &[187, 2], since: (20, &[0, 1013]), until: None, text: ["bal(", "bal(", "62616C28"] },
    E { key: &[187, 3], since: (20, &[0, 1013]), until: None, text: ["ΣPrn(", "SigmaPrn(", "C650726E28"] },
    E { key: &[187, 4], since: (20, &[0, 1013]), until: None, text: ["ΣInt(", "SigmaInt(", "C6496E7428"] },
    E { key: &[187, 5], since: (20, &[0, 1013]), until: None, text: ["►Nom(", ">Nom(", "054E6F6D28"] },
    E { key: &[187, 6], since: (20, &[0, 1013]), until: None, text: ["►Eff(", ">Eff(", "0545666628"] },
    E { key: &[187, 7], since: (20, &[0, 1013]), until: None, text: ["dbd(", "dbd(", "64626428"] },
    E { key: &[187, 8], since: (20, &[0, 1013]), until: None, text: ["lcm(", "lcm(", "6C636D28"] },
    E { key: &[187, 9], since: (20, &[0, 1013]), until: None, text: ["gcd(", "gcd(", "67636428"] },
    E { key: &[187, 10], since: (20, &[0, 1013]), until: None, text: ["randInt(", "randInt(", "72616E64496E7428"] },
    E { key: &[187, 11], since: (20, &[0, 1013]), until: None, text: ["randBin(", "randBin(", "72616E6442696E28"] },
    E { key: &[187, 12], since: (20, &[0, 1013]), until: None, text: ["sub(", "sub(", "73756228"] },
    E { key: &[187, 13], since: (20, &[0, 1013]), until: None, text: ["stdDev(", "stdDev(", "73746444657628"] },
    E { key: &[187, 14], since: (20, &[0, 1013]), until: None, text: ["variance(", "variance(", "76617269616E636528"] },
    E { key: &[187, 15], since: (20, &[0, 1013]), until: None, text: ["inString(", "inString(", "696E537472696E6728"] },
    E { key: &[187, 16], since: (20, &[0, 1013]), until: None, text: ["normalcdf(", "normalcdf(", "6E6F726D616C63646628"] },
    E { key: &[187, 17], since: (20, &[0, 1013]), until: None, text: ["invNorm(", "invNorm(", "696E764E6F726D28"] },
    E { key: &[187, 18], since: (20, &[0, 1013]), until: None, text: ["tcdf(", "tcdf(", "7463646628"] },
    E { key: &[187, 19], since: (20, &[0, 1013]), until: None, text: ["χ²cdf(", "chi^2cdf(", "D91263646628"] },
    E { key: &[187, 20], since: (20, &[0, 1013]), until: None, text: ["𝙵cdf(", "Fcdf(", "DA63646628"] },
    E { key: &[187, 21], since: (20, &[0, 1013]), until: None, text: ["binompdf(", "binompdf(", "62696E6F6D70646628"] },
    E { key: &[187, 22], since: (20, &[0, 1013]), until: None, text: ["binomcdf(", "binomcdf(", "62696E6F6D63646628"] },
    E { key: &[187, 23], since: (20, &[0, 1013]), until: None, text: ["poissonpdf(", "poissonpdf(", "706F6973736F6E70646628"] },
    E { key: &[187, 24], since: (20, &[0, 1013]), until: None, text: ["poissoncdf(", "poissoncdf(", "706F6973736F6E63646628"] },
    E { key: &[187, 25], since: (20, &[0, 1013]), until: None, text: ["geometpdf(", "geometpdf(", "67656F6D657470646628"] },
    E { key: &[187, 26], since: (20, &[0, 1013]), until: None, text: ["geometcdf(", "geometcdf(", "67656F6D657463646628"] },
    E { key: &[187, 27], since: (20, &[0, 1013]), until: None, text: ["normalpdf(", "normalpdf(", "6E6F726D616C70646628"] },
    E { key: &[187, 28], since: (20, &[0, 1013]), until: None, text: ["tpdf(", "tpdf(", "7470646628"] },
    E { key: &[187, 29], since: (20, &[0, 1013]), until: None, text: ["χ²pdf(", "chi^2pdf(", "D91270646628"] },
    E { key: &[187, 30], since: (20, &[0, 1013]), until: None, text: ["𝙵pdf(", "Fpdf(", "DA70646628"] },
    E { key: &[187, 31], since: (20, &[0, 1013]), until: None, text: ["randNorm(", "randNorm(", "72616E644E6F726D28"] },
    E { key: &[187, 32], since: (20, &[0, 1013]), until: None, text: ["tvm_Pmt", "tvm_Pmt", "74766D5F506D74"] },
    E { key: &[187, 33], since: (20, &[0, 1013]), until: None, text: ["tvm_I%", "tvm_I%", "74766D5F4925"] },
    E { key: &[187, 34], since: (20, &[0, 1013]), until: None, text: ["tvm_PV", "tvm_PV", "74766D5F5056"] },
    E { key: &[187, 35], since: (20, &[0, 1013]), until: None, text: ["tvm_𝗡", "tvm_N", "74766D5FDD"] },
    E { key: &[187, 36], since: (20, &[0, 1013]), until: None, text: ["tvm_FV", "tvm_FV", "74766D5F4656"] },
    E { key: &[187, 37], since: (20, &[0, 1013]), until: None, text: ["conj(", "conj(", "636F6E6A28"] },
    E { key: &[187, 38], since: (20, &[0, 1013]), until: None, text: ["real(", "real(", "7265616C28"] },
    E { key: &[187, 39], since: (20, &[0, 1013]), until: None, text: ["imag(", "imag(", "696D616728"] },
    E { key: &[187, 40], since: (20, &[0, 1013]), until: None, text: ["angle(", "angle(", "616E676C6528"] },
    E { key: &[187, 41], since: (20, &[0, 1013]), until: None, text: ["cumSum(", "cumSum(", "63756D53756D28"] },
    E { key: &[187, 42], since: (20, &[0, 1013]), until: None, text: ["expr(", "expr(", "6578707228"] },
    E { key: &[187, 43], since: (20, &[0, 1013]), until: None, text: ["length(", "length(", "6C656E67746828"] },
    E { key: &[187, 44], since: (20, &[0, 1013]), until: None, text: ["ΔList(", "DeltaList(", "BE4C69737428"] },
    E { key: &[187, 45], since: (20, &[0, 1013]), until: None, text: ["ref(", "ref(", "72656628"] },
    E { key: &[187, 46], since: (20, &[0, 1013]), until: None, text: ["rref(", "rref(", "7272656628"] },
    E { key: &[187, 47], since: (20, &[0, 1013]), until: None, text: ["►Rect", ">Rect", "0552656374"] },
    E { key: &[187, 48], since: (20, &[0, 1013]), until: None, text: ["►Polar", ">Polar", "05506F6C6172"] },
    E { key: &[187, 49], since: (20, &[0, 1013]), until: None, text: ["𝑒", "[e]", "DB"] },
    E { key: &[187, 50], since: (20, &[0, 1013]), until: None, text: ["SinReg ", "SinReg ", "53696E52656720"] },
    E { key: &[187, 51], since: (20, &[0, 1013]), until: None, text: ["Logistic ", "Logistic ", "4C6F67697374696320"] },
    E { key: &[187, 52], since: (20, &[0, 1013]), until: None, text: ["LinRegTTest ", "LinRegTTest ", "4C696E526567545465737420"] },
    E { key: &[187, 53], since: (20, &[0, 1013]), until: None, text: ["ShadeNorm(", "ShadeNorm(", "53686164654E6F726D28"] },
    E { key: &[187, 54], since: (20, &[0, 1013]), until: None, text: ["Shade_t(", "Shade_t(", "53686164655F7428"] },
    E { key: &[187, 55], since: (20, &[0, 1013]), until: None, text: ["Shadeχ²(", "Shadechi^2(", "5368616465D91228"] },
    E { key: &[187, 56], since: (20, &[0, 1013]), until: None, text: ["Shade𝙵(", "ShadeF(", "5368616465DA28BB39"] },
    E { key: &[187, 57], since: (20, &[0, 1013]), until: None, text: ["Matr►list(", "Matr>list(", "4D617472056C69737428"] },
    E { key: &[187, 58], since: (20, &[0, 1013]), until: None, text: ["List►matr(", "List>matr(", "4C697374056D61747228"] },
    E { key: &[187, 59], since: (20, &[0, 1013]), until: None, text: ["Z-Test(", "Z-Test(", "5A2D5465737428"] },
    E { key: &[187, 60], since: (20, &[0, 1013]), until: None, text: ["T-Test ", "T-Test ", "542D5465737420"] },
    E { key: &[187, 61], since: (20, &[0, 1013]), until: None, text: ["2-SampZTest(", "2-SampZTest(", "322D53616D705A5465737428"] },
    E { key: &[187, 62], since: (20, &[0, 1013]), until: None, text: ["1-PropZTest(", "1-PropZTest(", "312D50726F705A5465737428"] },
    E { key: &[187, 63], since: (20, &[0, 1013]), until: None, text: ["2-PropZTest(", "2-PropZTest(", "322D50726F705A5465737428"] },
    E { key: &[187, 64], since: (20, &[0, 1013]), until: None, text: ["χ²-Test(", "chi^2-Test(", "D9122D5465737428"] },
    E { key: &[187, 65], since: (20, &[0, 1013]), until: None, text: ["ZInterval ", "ZInterval ", "5A496E74657276616C20"] },
    E { key: &[187, 66], since: (20, &[0, 1013]), until: None, text: ["2-SampZInt(", "2-SampZInt(", "322D53616D705A496E7428"] },
    E { key: &[187, 67], since: (20, &[0, 1013]), until: None, text: ["1-PropZInt(", "1-PropZInt(", "312D50726F705A496E7428"] },
    E { key: &[187, 68], since: (20, &[0, 1013]), until: None, text: ["2-PropZInt(", "2-PropZInt(", "322D50726F705A496E7428"] },
    E { key: &[187, 69], since: (20, &[0, 1013]), until: None, text: ["GraphStyle(", "GraphStyle(", "47726170685374796C6528"] },
    E { key: &[187, 70], since: (20, &[0, 1013]), until: None, text: ["2-SampTTest ", "2-SampTTest ", "322D53616D70545465737420"] },
    E { key: &[187, 71], since: (20, &[0, 1013]), until: None, text: ["2-Samp𝙵Test ", "2-SampFTest ", "322D53616D70DA5465737420"] },
    E { key: &[187, 72], since: (20, &[0, 1013]), until: None, text: ["TInterval ", "TInterval ", "54496E74657276616C20"] },
    E { key: &[187, 73], since: (20, &[0, 1013]), until: None, text: ["2-SampTInt ", "2-SampTInt ", "322D53616D7054496E7420"] },
    E { key: &[187, 74], since: (20, &[0, 1013]), until: None, text: ["SetUpEditor ", "SetUpEditor ", "5365745570456469746F7220"] },
    E { key: &[187, 75], since: (20, &[0, 1013]), until: None, text: ["Pmt_End", "Pmt_End", "506D745F456E64"] },
    E { key: &[187, 76], since: (20, &[0, 1013]), until: None, text: ["Pmt_Bgn", "Pmt_Bgn", "506D745F42676E"] },
    E { key: &[187, 77], since: (20, &[0, 1013]), until: None, text: ["Real", "Real", "5265616C"] },
    E { key: &[187, 78], since: (20, &[0, 1013]), until: None, text: ["r𝑒^θ𝑖", "re^thetai", "72DB5E5BD7"] },
    E { key: &[187, 79], since: (20, &[0, 1013]), until: None, text: ["a+b𝑖", "a+bi", "612B62D7"] },
    E { key: &[187, 80], since: (20, &[0, 1013]), until: None, text: ["ExprOn", "ExprOn", "457870724F6E"] },
    E { key: &[187, 81], since: (20, &[0, 1013]), until: None, text: ["ExprOff", "ExprOff", "457870724F6666"] },
    E { key: &[187, 82], since: (20, &[0, 1013]), until: None, text: ["ClrAllLists", "ClrAllLists", "436C72416C6C4C69737473"] },
    E { key: &[187, 83], since: (20, &[0, 1013]), until: None, text: ["GetCalc(", "GetCalc(", "47657443616C6328"] },
    E { key: &[187, 84], since: (20, &[0, 1013]), until: Some((20, &[1, 10])), text: ["DelVar", "DelVar", "44656C566172"] },
    E { key: &[187, 84], since: (20, &[1, 10]), until: None, text: ["DelVar ", "DelVar ", "44656C56617220"] },
    E { key: &[187, 85], since: (20, &[0, 1013]), until: None, text: ["Equ►String(", "Equ>String(", "45717505537472696E6728"] },
    E { key: &[187, 86], since: (20, &[0, 1013]), until: None, text: ["String►Equ(", "String>Equ(", "537472696E670545717528"] },
    E { key: &[187, 87], since: (20, &[0, 1013]), until: None, text: ["Clear Entries", "Clear Entries", "436C65617220456E7472696573"] },
    E { key: &[187, 88], since: (20, &[0, 1013]), until: None, text: ["Select(", "Select(", "53656C65637428"] },
    E { key: &[187, 89], since: (20, &[0, 1013]), until: None, text: ["ANOVA(", "ANOVA(", "414E4F564128"] },
    E { key: &[187, 90], since: (20, &[0, 1013]), until: None, text: ["ModBoxplot", "ModBoxplot", "4D6F64426F78706C6F74"] },
    E { key: &[187, 91], since: (20, &[0, 1013]), until: None, text: ["NormProbPlot", "NormProbPlot", "4E6F726D50726F62506C6F74"] },
    E { key: &[187, 100], since: (20, &[1, 10]), until: None, text: ["G-T", "G-T", "472D54"] },
    E { key: &[187, 101], since: (20, &[1, 10]), until: None, text: ["ZoomFit", "ZoomFit", "5A6F6F6D466974"] },
    E { key: &[187, 102], since: (20, &[1, 10]), until: None, text: ["DiagnosticOn", "DiagnosticOn", "446961676E6F737469634F6E"] },
    E { key: &[187, 103], since: (20, &[1, 10]), until: None, text: ["DiagnosticOff", "DiagnosticOff", "446961676E6F737469634F6666"] },
    E { key: &[187, 104], since: (30, &[0, 103]), until: None, text: ["Archive ", "Archive ", "4172636869766520"] },
    E { key: &[187, 105], since: (30, &[0, 103]), until: None, text: ["UnArchive ", "UnArchive ", "556E4172636869766520"] },
    E { key: &[187, 106], since: (30, &[0, 103]), until: None, text: ["Asm(", "Asm(", "41736D28"] },
    E { key: &[187, 107], since: (30, &[0, 103]), until: None, text: ["AsmComp(", "AsmComp(", "41736D436F6D7028"] },
    E { key: &[187, 108], since: (30, &[0, 103]), until: None, text: ["AsmPrgm", "AsmPrgm", "41736D5072676D"] },
    E { key: &[187, 110], since: (30, &[1, 3]), until: None, text: ["Á", "Á", "8A"] },
    E { key: &[187, 111], since: (30, &[1, 3]), until: None, text: ["À", "À", "8B"] },
    E { key: &[187, 112], since: (30, &[1, 3]), until: None, text: ["Â", "Â", "8C"] },
    E { key: &[187, 113], since: (30, &[1, 3]), until: None, text: ["Ä", "Ä", "8D"] },
    E { key: &[187, 114], since: (30, &[1, 3]), until: None, text: ["á", "á", "8E"] },
    E { key: &[187, 115], since: (30, &[1, 3]), until: None, text: ["à", "à", "8F"] },
    E { key: &[187, 116], since: (30, &[1, 3]), until: None, text: ["â", "â", "90"] },
    E { key: &[187, 117], since: (30, &[1, 3]), until: None, text: ["ä", "ä", "91"] },
    E { key: &[187, 118], since: (30, &[1, 3]), until: None, text: ["É", "É", "92"] },
    E { key: &[187, 119], since: (30, &[1, 3]), until: None, text: ["È", "È", "93"] },
    E { key: &[187, 120], since: (30, &[1, 3]), until: None, text: ["Ê", "Ê", "94"] },
    E { key: &[187, 121], since: (30, &[1, 3]), until: None, text: ["Ë", "Ë", "95"] },
    E { key: &[187, 122], since: (30, &[1, 3]), until: None, text: ["é", "é", "96"] },
    E { key: &[187, 123], since: (30, &[1, 3]), until: None, text: ["è", "è", "97"] },
    E { key: &[187, 124], since: (30, &[1, 3]), until: None, text: ["ê", "ê", "98"] },
    E { key: &[187, 125], since: (30, &[1, 3]), until: None, text: ["ë", "ë", "99"] },
    E { key: &[187, 127], since: (30, &[1, 3]), until: None, text: ["Ì", "Ì", "9B"] },
    E { key: &[187, 128], since: (30, &[1, 3]), until: None, text: ["Î", "Î", "9C"] },
    E { key: &[187, 129], since: (30, &[1, 3]), until: None, text: ["Ï", "Ï", "9D"] },
    E { key: &[187, 130], since: (30, &[1, 3]), until: None, text: ["í", "í", "9E"] },
    E { key: &[187, 131], since: (30, &[1, 3]), until: None, text: ["ì", "ì", "9F"] },
    E { key: &[187, 132], since: (30, &[1, 3]), until: None, text: ["î", "î", "A0"] },
    E { key: &[187, 133], since: (30, &[1, 3]), until: None, text: ["ï", "ï", "A1"] },
    E { key: &[187, 134], since: (30, &[1, 3]), until: None, text: ["Ó", "Ó", "A2"] },
    E { key: &[187, 135], since: (30, &[1, 3]), until: None, text: ["Ò", "Ò", "A3"] },
    E { key: &[187, 136], since: (30, &[1, 3]), until: None, text: ["Ô", "Ô", "A4"] },
    E { key: &[187, 137], since: (30, &[1, 3]), until: None, text: ["Ö", "Ö", "A5"] },
    E { key: &[187, 138], since: (30, &[1, 3]), until: None, text: ["ó", "ó", "A6"] },
    E { key: &[187, 139], since: (30, &[1, 3]), until: None, text: ["ò", "ò", "A7"] },
    E { key: &[187, 140], since: (30, &[1, 3]), until: None, text: ["ô", "ô", "A8"] },
    E { key: &[187, 141], since: (30, &[1, 3]), until: None, text: ["ö", "ö", "A9"] },
    E { key: &[187, 142], since: (30, &[1, 3]), until: None, text: ["Ú", "Ú", "AA"] },
    E { key: &[187, 143], since: (30, &[1, 3]), until: None, text: ["Ù", "Ù", "AB"] },
    E { key: &[187, 144], since: (30, &[1, 3]), until: None, text: ["Û", "Û", "AC"] },
    E { key: &[187, 145], since: (30, &[1, 3]), until: None, text: ["Ü", "Ü", "AD"] },
    E { key: &[187, 146], since: (30, &[1, 3]), until: None, text: ["ú", "ú", "AE"] },
    E { key: &[187, 147], since: (30, &[1, 3]), until: None, text: ["ù", "ù", "AF"] },
    E { key: &[187, 148], since: (30, &[1, 3]), until: None, text: ["û", "û", "B0"] },
    E { key: &[187, 149], since: (30, &[1, 3]), until: None, text: ["ü", "ü", "B1"] },
    E { key: &[187, 150], since: (30, &[1, 3]), until: None, text: ["Ç", "Ç", "B2"] },
    E { key: &[187, 151], since: (30, &[1, 3]), until: None, text: ["ç", "ç", "B3"] },
    E { key: &[187, 152], since: (30, &[1, 3]), until: None, text: ["Ñ", "Ñ", "B4"] },
    E { key: &[187, 153], since: (30, &[1, 3]), until: None, text: ["ñ", "ñ", "B5"] },
    E { key: &[187, 154], since: (30, &[1, 3]), until: None, text: ["´", "|'", "B6"] },
    E { key: &[187, 155], since: (30, &[1, 3]), until: None, text: ["`", "|`", "B7"] },
    E { key: &[187, 156], since: (30, &[1, 3]), until: None, text: ["¨", "|:", "B8"] },
    E { key: &[187, 157], since: (30, &[1, 3]), until: None, text: ["¿", "|?", "B9"] },
    E { key: &[187, 158], since: (30, &[1, 3]), until: None, text: ["¡", "|!", "BA"] },
    E { key: &[187, 159], since: (30, &[1, 3]), until: None, text: ["α", "alpha", "BB"] },
    E { key: &[187, 160], since: (30, &[1, 3]), until: None, text: ["β", "beta", "BC"] },
    E { key: &[187, 161], since: (30, &[1, 3]), until: None, text: ["γ", "gamma", "BD"] },
    E { key: &[187, 162], since: (30, &[1, 3]), until: None, text: ["Δ", "Delta", "BE"] },
    E { key: &[187, 163], since: (30, &[1, 3]), until: None, text: ["δ", "delta", "BF"] },
    E { key: &[187, 164], since: (30, &[1, 3]), until: None, text: ["ε", "epsilon", "C0"] },
    E { key: &[187, 165], since: (30, &[1, 3]), until: None, text: ["λ", "lambda", "C2"] },
    E { key: &[187, 166], since: (30, &[1, 3]), until: None, text: ["μ", "mu", "C3"] },
    E { key: &[187, 167], since: (30, &[1, 3]), until: None, text: ["π", "greek_pi", "C4"] },
    E { key: &[187, 168], since: (30, &[1, 3]), until: None, text: ["ρ", "rho", "C5"] },
    E { key: &[187, 169], since: (30, &[1, 3]), until: None, text: ["Σ", "Sigma", "C6"] },
    E { key: &[187, 171], since: (30, &[1, 3]), until: None, text: ["Φ", "Phi", "C9"] },
    E { key: &[187, 172], since: (30, &[1, 3]), until: None, text: ["Ω", "Omega", "CA"] },
    E { key: &[187, 173], since: (30, &[1, 3]), until: None, text: ["p̂", "phat", "D8"] },
    E { key: &[187, 174], since: (30, &[1, 3]), until: None, text: ["χ", "chi", "D9"] },
    E { key: &[187, 175], since: (30, &[1, 3]), until: None, text: ["𝙵", "|F", "DA"] },
    E { key: &[187, 176], since: (30, &[1, 3]), until: None, text: ["a", "a", "61"] },
    E { key: &[187, 177], since: (30, &[1, 3]), until: None, text: ["b", "b", "62"] },
    E { key: &[187, 178], since: (30, &[1, 3]), until: None, text: ["c", "c", "63"] },
    E { key: &[187, 179], since: (30, &[1, 3]), until: None, text: ["d", "d", "64"] },
    E { key: &[187, 180], since: (30, &[1, 3]), until: None, text: ["e", "e", "65"] },
    E { key: &[187, 181], since: (30, &[1, 3]), until: None, text: ["f", "f", "66"] },
    E { key: &[187, 182], since: (30, &[1, 3]), until: None, text: ["g", "g", "67"] },
    E { key: &[187, 183], since: (30, &[1, 3]), until: None, text: ["h", "h", "68"] },
    E { key: &[187, 184], since: (30, &[1, 3]), until: None, text: ["i", "i", "69"] },
    E { key: &[187, 185], since: (30, &[1, 3]), until: None, text: ["j", "j", "6A"] },
    E { key: &[187, 186], since: (30, &[1, 3]), until: None, text: ["k", "k", "6B"] },
    E { key: &[187, 188], since: (30, &[1, 3]), until: None, text: ["l", "l", "6C"] },
    E { key: &[187, 189], since: (30, &[1, 3]), until: None, text: ["m", "m", "6D"] },
    E { key: &[187, 190], since: (30, &[1, 3]), until: None, text: ["n", "n", "6E"] },
    E { key: &[187, 191], since: (30, &[1, 3]), until: None, text: ["o", "o", "6F"] },
    E { key: &[187, 192], since: (30, &[1, 3]), until: None, text: ["p", "p", "70"] },
    E { key: &[187, 193], since: (30, &[1, 3]), until: None, text: ["q", "q", "71"] },
    E { key: &[187, 194], since: (30, &[1, 3]), until: None, text: ["r", "r", "72"] },
    E { key: &[187, 195], since: (30, &[1, 3]), until: None, text: ["s", "s", "73"] },
    E { key: &[187, 196], since: (30, &[1, 3]), until: None, text: ["t", "t", "74"] },
    E { key: &[187, 197], since: (30, &[1, 3]), until: None, text: ["u", "u", "75"] },
    E { key: &[187, 198], since: (30, &[1, 3]), until: None, text: ["v", "v", "76"] },
    E { key: &[187, 199], since: (30, &[1, 3]), until: None, text: ["w", "w", "77"] },
    E { key: &[187, 200], since: (30, &[1, 3]), until: None, text: ["x", "x", "78"] },
    E { key: &[187, 201], since: (30, &[1, 3]), until: None, text: ["y", "y", "79"] },
    E { key: &[187, 202], since: (30, &[1, 3]), until: None, text: ["z", "z", "7A"] },
    E { key: &[187, 203], since: (30, &[1, 3]), until: None, text: ["σ", "sigma", "C7"] },
    E { key: &[187, 204], since: (30, &[1, 3]), until: None, text: ["τ", "tau", "C8"] },
    E { key: &[187, 205], since: (30, &[1, 3]), until: None, text: ["Í", "Í", "9A"] },
    E { key: &[187, 206], since: (30, &[1, 3]), until: None, text: ["GarbageCollect", "GarbageCollect", "47617262616765436F6C6C656374"] },
    E { key: &[187, 207], since: (30, &[1, 15]), until: None, text: ["~", "|~", "7E"] },
    E { key: &[187, 209], since: (30, &[1, 15]), until: None, text: ["@", "@", "40"] },
    E { key: &[187, 210], since: (30, &[1, 15]), until: None, text: ["#", "#", "23"] },
    E { key: &[187, 211], since: (30, &[1, 15]), until: None, text: ["$", "$", "F2"] },
    E { key: &[187, 212], since: (30, &[1, 15]), until: None, text: ["&", "&", "26"] },
    E { key: &[187, 213], since: (30, &[1, 15]), until: None, text: ["`", "`", "B7"] },
    E { key: &[187, 214], since: (30, &[1, 15]), until: None, text: [";", ";", "3B"] },
    E { key: &[187, 215], since: (30, &[1, 15]), until: None, text: ["\\", "\\", "5C"] },
    E { key: &[187, 216], since: (30, &[1, 15]), until: None, text: ["|", "|", "7C"] },
    E { key: &[187, 217], since: (30, &[1, 15]), until: None, text: ["_", "_", "5F"] },
    E { key: &[187, 218], since: (30, &[1, 15]), until: None, text: ["%", "%", "25"] },
    E { key: &[187, 219], since: (30, &[1, 16]), until: None, text: ["…", "...", "CE"] },
    E { key: &[187, 220], since: (30, &[1, 16]), until: None, text: ["∠", "|<", "13"] },
    E { key: &[187, 221], since: (30, &[1, 16]), until: None, text: ["ß", "sharps", "F4"] },
    E { key: &[187, 222], since: (30, &[1, 16]), until: None, text: ["ˣ", "^^x", "CD"] },
    E { key: &[187, 223], since: (30, &[1, 16]), until: None, text: ["ᴛ", "smallT", "0D"] },
    E { key: &[187, 224], since: (30, &[1, 16]), until: None, text: ["₀", "small0", "80"] },
    E { key: &[187, 225], since: (30, &[1, 16]), until: None, text: ["₁", "small1", "81"] },
    E { key: &[187, 226], since: (30, &[1, 16]), until: None, text: ["₂", "small2", "82"] },
    E { key: &[187, 227], since: (30, &[1, 16]), until: None, text: ["₃", "small3", "83"] },
    E { key: &[187, 228], since: (30, &[1, 16]), until: None, text: ["₄", "small4", "84"] },
    E { key: &[187, 229], since: (30, &[1, 16]), until: None, text: ["₅", "small5", "85"] },
    E { key: &[187, 230], since: (30, &[1, 16]), until: None, text: ["₆", "small6", "86"] },
    E { key: &[187, 231], since: (30, &[1, 16]), until: None, text: ["₇", "small7", "87"] },
    E { key: &[187, 232], since: (30, &[1, 16]), until: None, text: ["₈", "small8", "88"] },
    E { key: &[187, 233], since: (30, &[1, 16]), until: None, text: ["₉", "small9", "89"] },
    E { key: &[187, 234], since: (30, &[1, 16]), until: None, text: ["₁₀", "small10", "1D"] },
    E { key: &[187, 235], since: (30, &[1, 16]), until: None, text: ["◄", "<|", "CF"] },
    E { key: &[187, 236], since: (30, &[1, 16]), until: None, text: ["►", "|>", "05"] },
    E { key: &[187, 237], since: (30, &[1, 16]), until: None, text: ["↑", "uparrow", "1E"] },
    E { key: &[187, 238], since: (30, &[1, 16]), until: None, text: ["↓", "downarrow", "1F"] },
    E { key: &[187, 240], since: (30, &[1, 16]), until: None, text: ["×", "xmark", "09"] },
    E { key: &[187, 241], since: (30, &[1, 16]), until: None, text: ["∫", "integral", "08"] },
    E { key: &[187, 242], since: (30, &[1, 16]), until: None, text: ["🡁", "bolduparrow", "F3"] },
    E { key: &[187, 243], since: (30, &[1, 16]), until: None, text: ["🠿", "bolddownarrow", "07"] },
    E { key: &[187, 244], since: (30, &[1, 16]), until: None, text: ["√", "squareroot", "10"] },
    E { key: &[187, 245], since: (30, &[1, 16]), until: None, text: ["⌸", "invertedequal", "7F"] },
    E { key: &[188], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["√", "sqrt", "10"] },
    E { key: &[188], since: (20, &[0, 1013]), until: None, text: ["√(", "sqrt(", "1028"] },
    E { key: &[189], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["³√", "cuberoot", "0E10"] },
    E { key: &[189], since: (20, &[0, 1013]), until: None, text: ["³√(", "cuberoot(", "0E1028"] },
    E { key: &[190], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["ln ", "ln ", "6C6E20"] },
    E { key: &[190], since: (20, &[0, 1013]), until: None, text: ["ln(", "ln(", "6C6E28"] },
    E { key: &[191], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["𝑒^", "e^^", "DB5E"] },
    E { key: &[191], since: (20, &[0, 1013]), until: None, text: ["𝑒^(", "e^^(", "DB5E28"] },
    E { key: &[192], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["log ", "log ", "6C6F67"] },
    E { key: &[192], since: (20, &[0, 1013]), until: None, text: ["log(", "log(", "6C6F6728"] },
    E { key: &[193], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["₁₀^", "10^^", "1D5E"] },
    E { key: &[193], since: (20, &[0, 1013]), until: None, text: ["₁₀^(", "10^^(", "1D5E28"] },
    E { key: &[194], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["sin ", "sin ", "73696E20"] },
    E { key: &[194], since: (20, &[0, 1013]), until: None, text: ["sin(", "sin(", "73696E28"] },
    E { key: &[195], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["sin⁻¹ ", "sin^-1 ", "73696E1120"] },
    E { key: &[195], since: (20, &[0, 1013]), until: None, text: ["sin⁻¹(", "sin^-1(", "73696E1128"] },
    E { key: &[196], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["cos ", "cos ", "636F7320"] },
    E { key: &[196], since: (20, &[0, 1013]), until: None, text: ["cos(", "cos(", "636F7328"] },
    E { key: &[197], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["cos⁻¹ ", "cos^-1 ", "636F731120"] },
    E { key: &[197], since: (20, &[0, 1013]), until: None, text: ["cos⁻¹(", "cos^-1(", "636F731128"] },
    E { key: &[198], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["tan ", "tan ", "74616E20"] },
    E { key: &[198], since: (20, &[0, 1013]), until: None, text: ["tan(", "tan(", "74616E28"] },
    E { key: &[199], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["tan⁻¹ ", "tan^-1 ", "74616E1120"] },
    E { key: &[199], since: (20, &[0, 1013]), until: None, text: ["tan⁻¹(", "tan^-1(", "74616E1128"] },
    E { key: &[200], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["sinh ", "sinh ", "73696E6820"] },
    E { key: &[200], since: (20, &[0, 1013]), until: None, text: ["sinh(", "sinh(", "73696E6828"] },
    E { key: &[201], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["sinh⁻¹ ", "sinh^-1 ", "73696E681120"] },
    E { key: &[201], since: (20, &[0, 1013]), until: None, text: ["sinh⁻¹(", "sinh^-1(", "73696E681128"] },
    E { key: &[202], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["cosh ", "cosh ", "636F736820"] },
    E { key: &[202], since: (20, &[0, 1013]), until: None, text: ["cosh(", "cosh(", "636F736828"] },
    E { key: &[203], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["cosh⁻¹ ", "cosh^-1 ", "636F73681120"] },
    E { key: &[203], since: (20, &[0, 1013]), until: None, text: ["cosh⁻¹(", "cosh^-1(", "636F73681128"] },
    E { key: &[204], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["tanh ", "tanh ", "74616E6820"] },
    E { key: &[204], since: (20, &[0, 1013]), until: None, text: ["tanh(", "tanh(", "74616E6828"] },
    E { key: &[205], since: (10, &[1, 0]), until: Some((20, &[0, 1013])), text: ["tanh⁻¹ ", "tanh^-1 ", "74616E681120"] },
    E { key: &[205], since: (20, &[0, 1013]), until: None, text: ["tanh⁻¹(", "tanh^-1(", "74616E681128"] },
    E { key: &[206], since: (10, &[1, 0]), until: None, text: ["If ", "If ", "496620"] },
    E { key: &[207], since: (10, &[1, 0]), until: None, text: ["Then", "Then", "5468656E"] },
    E { key: &[208], since: (10, &[1, 0]), until: None, text: ["Else", "Else", "456C7365"] },
    E { key: &[209], since: (10, &[1, 0]), until: None, text: ["While ", "While ", "5768696C6520"] },
    E { key: &[210], since: (10, &[1, 0]), until: None, text: ["Repeat ", "Repeat ", "52657065617420"] },
    E { key: &[211], since: (10, &[1, 0]), until: None, text: ["For(", "For(", "466F7228"] },
    E { key: &[212], since: (10, &[1, 0]), until: None, text: ["End", "End", "456E64"] },
    E { key: &[213], since: (10, &[1, 0]), until: None, text: ["Return", "Return", "52657475726E"] },
    E { key: &[214], since: (10, &[1, 0]), until: None, text: ["Lbl ", "Lbl ", "4C626C20"] },
    E { key: &[215], since: (10, &[1, 0]), until: None, text: ["Goto ", "Goto ", "476F746F20"] },
    E { key: &[216], since: (10, &[1, 0]), until: None, text: ["Pause ", "Pause ", "506175736520"] },
    E { key: &[217], since: (10, &[1, 0]), until: None, text: ["Stop", "Stop", "53746F70"] },
    E { key: &[218], since: (10, &[1, 0]), until: None, text: ["IS>(", "IS>(", "49533E28"] },
    E { key: &[219], since: (10, &[1, 0]), until: None, text: ["DS<(", "DS<(", "44533C28"] },
    E { key: &[220], since: (10, &[1, 0]), until: None, text: ["Input ", "Input ", "496E70757420"] },
    E { key: &[221], since: (10, &[1, 0]), until: None, text: ["Prompt ", "Prompt ", "50726F6D707420"] },
    E { key: &[222], since: (10, &[1, 0]), until: None, text: ["Disp ", "Disp ", "4469737020"] },
    E { key: &[223], since: (10, &[1, 0]), until: None, text: ["DispGraph", "DispGraph", "446973704772617068"] },
    E { key: &[224], since: (10, &[1, 0]), until: None, text: ["Output(", "Output(", "4F757470757428"] },
    E { key: &[225], since: (10, &[1, 0]), until: None, text: ["ClrHome", "ClrHome", "436C72486F6D65"] },
    E { key: &[226], since: (10, &[1, 0]), until: None, text: ["Fill(", "Fill(", "46696C6C28"] },
    E { key: &[227], since: (10, &[1, 0]), until: None, text: ["SortA(", "SortA(", "536F72744128"] },
    E { key: &[228], since: (10, &[1, 0]), until: None, text: ["SortD(", "SortD(", "536F72744428"] },
    E { key: &[229], since: (10, &[1, 0]), until: None, text: ["DispTable", "DispTable", "446973705461626C65"] },
    E { key: &[230], since: (10, &[1, 0]), until: None, text: ["Menu(", "Menu(", "4D656E7528"] },
    E { key: &[231], since: (10, &[1, 0]), until: None, text: ["Send(", "Send(", "53656E6428"] },
    E { key: &[232], since: (10, &[1, 0]), until: None, text: ["Get(", "Get(", "47657428"] },
    E { key: &[233], since: (10, &[1, 0]), until: None, text: ["PlotsOn ", "PlotsOn ", "506C6F74734F6E20"] },
    E { key: &[234], since: (10, &[1, 0]), until: None, text: ["PlotsOff ", "PlotsOff ", "506C6F74734F666620"] },
    E { key: &[235], since: (20, &[0, 1013]), until: None, text: ["ʟ", "smallL", "DC"] },
    E { key: &[236], since: (10, &[1, 0]), until: None, text: ["Plot1(", "Plot1(", "506C6F743128"] },
    E { key: &[237], since: (10, &[1, 0]), until: None, text: ["Plot2(", "Plot2(", "506C6F743228"] },
    E { key: &[238], since: (10, &[1, 0]), until: None, text: ["Plot3(", "Plot3(", "506C6F743328"] },
    E { key: &[239, 0], since: (40, &[0, 1]), until: None, text: ["setDate(", "setDate(", "7365744461746528"] },
    E { key: &[239, 1], since: (40, &[0, 1]), until: None, text: ["setTime(", "setTime(", "73657454696D6528"] },
    E { key: &[239, 2], since: (40, &[0, 1]), until: None, text: ["checkTmr(", "checkTmr(", "636865636B546D7228"] },
    E { key: &[239, 3], since: (40, &[0, 1]), until: None, text: ["setDtFmt(", "setDtFmt(", "7365744474466D7428"] },
    E { key: &[239, 4], since: (40, &[0, 1]), until: None, text: ["setTmFmt(", "setTmFmt(", "736574546D466D7428"] },
    E { key: &[239, 5], since: (40, &[0, 1]), until: None, text: ["timeCnv(", "timeCnv(", "74696D65436E7628"] },
    E { key: &[239, 6], since: (40, &[0, 1]), until: None, text: ["dayOfWk(", "dayOfWk(", "6461794F66576B28"] },
    E { key: &[239, 7], since: (40, &[0, 1]), until: None, text: ["getDtStr(", "getDtStr(", "676574447453747228"] },
    E { key: &[239, 8], since: (40, &[0, 1]), until: None, text: ["getTmStr(", "getTmStr(", "676574546D53747228"] },
    E { key: &[239, 9], since: (40, &[0, 1]), until: None, text: ["getDate", "getDate", "67657444617465"] },
    E { key: &[239, 10], since: (40, &[0, 1]), until: None, text: ["getTime", "getTime", "67657454696D65"] },
    E { key: &[239, 11], since: (40, &[0, 1]), until: None, text: ["startTmr", "startTmr", "7374617274546D72"] },
    E { key: &[239, 12], since: (40, &[0, 1]), until: None, text: ["getDtFmt", "getDtFmt", "6765744474466D74"] },
    E { key: &[239, 13], since: (40, &[0, 1]), until: None, text: ["getTmFmt", "getTmFmt", "676574546D466D74"] },
    E { key: &[239, 14], since: (40, &[0, 1]), until: None, text: ["isClockOn", "isClockOn", "6973436C6F636B4F6E"] },
    E { key: &[239, 15], since: (40, &[0, 1]), until: None, text: ["ClockOff", "ClockOff", "436C6F636B4F6666"] },
    E { key: &[239, 16], since: (40, &[0, 1]), until: None, text: ["ClockOn", "ClockOn", "436C6F636B4F6E"] },
    E { key: &[239, 17], since: (40, &[0, 1]), until: None, text: ["OpenLib(", "OpenLib(", "4F70656E4C696228"] },
    E { key: &[239, 18], since: (40, &[0, 1]), until: None, text: ["ExecLib ", "ExecLib ", "457865634C696220"] },
    E { key: &[239, 19], since: (40, &[2, 30]), until: None, text: ["invT(", "invT(", "696E765428"] },
    E { key: &[239, 20], since: (40, &[2, 30]), until: None, text: ["χ²GOF-Test(", "chi^2GOF-Test(", "D912474F462D5465737428"] },
    E { key: &[239, 21], since: (40, &[2, 30]), until: None, text: ["LinRegTInt ", "LinRegTInt ", "4C696E52656754496E7420"] },
    E { key: &[239, 22], since: (40, &[0, 46]), until: None, text: ["Manual-Fit ", "Manual-Fit ", "4D616E75616C2D46697420"] },
    E { key: &[239, 23], since: (40, &[0, 1]), until: None, text: ["ZQuadrant1", "ZQuadrant1", "5A5175616472616E7431"] },
    E { key: &[239, 24], since: (40, &[2, 53]), until: None, text: ["ZFrac1⁄2", "ZFrac1/2", "5A4672616331F632"] },
    E { key: &[239, 25], since: (40, &[2, 53]), until: None, text: ["ZFrac1⁄3", "ZFrac1/3", "5A4672616331F633"] },
    E { key: &[239, 26], since: (40, &[2, 53]), until: None, text: ["ZFrac1⁄4", "ZFrac1/4", "5A4672616331F634"] },
    E { key: &[239, 27], since: (40, &[2, 53]), until: None, text: ["ZFrac1⁄5", "ZFrac1/5", "5A4672616331F635"] },
    E { key: &[239, 28], since: (40, &[2, 53]), until: None, text: ["ZFrac1⁄8", "ZFrac1/8", "5A4672616331F638"] },
    E { key: &[239, 29], since: (40, &[2, 53]), until: None, text: ["ZFrac1⁄10", "ZFrac1/10", "5A4672616331F63130"] },
    E { key: &[239, 30], since: (40, &[2, 53]), until: None, text: [".", "mathprintbox", "F7"] },
    E { key: &[239, 46], since: (40, &[2, 53]), until: None, text: ["⁄", "n/d", "F6"] },
    E { key: &[239, 47], since: (40, &[2, 53]), until: None, text: ["󸏵", "Un/d", "F5"] },
    E { key: &[239, 48], since: (40, &[2, 53]), until: None, text: ["►n⁄d◄►Un⁄d", ">n/d<>Un/d", "056EF664CF05556EF664"] },
    E { key: &[239, 49], since: (40, &[2, 53]), until: None, text: ["►F◄►D", ">F<>D", "0546CF0544"] },
    E { key: &[239, 50], since: (40, &[2, 53]), until: None, text: ["remainder(", "remainder(", "72656D61696E64657228"] },
    E { key: &[239, 51], since: (40, &[2, 53]), until: None, text: ["Σ(", "Sigma(", "C628"] },
    E { key: &[239, 52], since: (40, &[2, 53]), until: None, text: ["logBASE(", "logBASE(", "6C6F674241534528"] },
    E { key: &[239, 53], since: (40, &[2, 53]), until: None, text: ["randIntNoRep(", "randIntNoRep(", "72616E64496E744E6F52657028"] },
    E { key: &[239, 55], since: (40, &[2, 53]), until: None, text: ["MATHPRINT", "[MATHPRINT]", "4D4154485052494E54"] },
    E { key: &[239, 56], since: (40, &[2, 53]), until: None, text: ["CLASSIC", "[CLASSIC]", "434C4153534943"] },
    E { key: &[239, 57], since: (40, &[2, 53]), until: None, text: ["n⁄d", "[n/d]", "6EF664"] },
    E { key: &[239, 58], since: (40, &[2, 53]), until: None, text: ["Un⁄d", "[Un/d]", "556EF664"] },
    E { key: &[239, 59], since: (40, &[2, 53]), until: None, text: ["AUTO", "[AUTO]", "4155544F"] },
    E { key: &[239, 60], since: (40, &[2, 53]), until: None, text: ["DEC", "[DEC]", "444543"] },
    E { key: &[239, 61], since: (40, &[2, 53]), until: Some((50, &[4, 0])), text: ["FRAC", "[FRAC]", "46524143"] },
    E { key: &[239, 61], since: (50, &[4, 0]), until: None, text: ["FRAC-APPROX", "[FRAC-APPROX]", "465241432D415050524F58"] },
    E { key: &[239, 63], since: (40, &[2, 55]), until: None, text: ["STATWIZARD ON", "[STATWIZARD ON]", "5354415457495A415244204F4E"] },
    E { key: &[239, 64], since: (40, &[2, 55]), until: None, text: ["STATWIZARD OFF", "[STATWIZARD OFF]", "5354415457495A415244204F4646"] },
    E { key: &[239, 65], since: (50, &[4, 0]), until: None, text: ["BLUE", "BLUE", "424C5545"] },
    E { key: &[239, 66], since: (50, &[4, 0]), until: None, text: ["RED", "RED", "524544"] },
    E { key: &[239, 67], since: (50, &[4, 0]), until: None, text: ["BLACK", "BLACK", "424C41434B"] },
    E { key: &[239, 68], since: (50, &[4, 0]), until: None, text: ["MAGENTA", "MAGENTA", "4D4147454E5441"] },
    E { key: &[239, 69], since: (50, &[4, 0]), until: None, text: ["GREEN", "GREEN", "475245454E"] },
    E { key: &[239, 70], since: (50, &[4, 0]), until: None, text: ["ORANGE", "ORANGE", "4F52414E4745"] },
    E { key: &[239, 71], since: (50, &[4, 0]), until: None, text: ["BROWN", "BROWN", "42524F574E"] },
    E { key: &[239, 72], since: (50, &[4, 0]), until: None, text: ["NAVY", "NAVY", "4E415659"] },
    E { key: &[239, 73], since: (50, &[4, 0]), until: None, text: ["LTBLUE", "LTBLUE", "4C54424C5545"] },
    E { key: &[239, 74], since: (50, &[4, 0]), until: None, text: ["YELLOW", "YELLOW", "59454C4C4F57"] },
    E { key: &[239, 75], since: (50, &[4, 0]), until: None, text: ["WHITE", "WHITE", "5748495445"] },
    E { key: &[239, 76], since: (50, &[4, 0]), until: None, text: ["LTGRAY", "LTGRAY", "4C5447524159"] },
    E { key: &[239, 77], since: (50, &[4, 0]), until: None, text: ["MEDGRAY", "MEDGRAY", "4D454447524159"] },
    E { key: &[239, 78], since: (50, &[4, 0]), until: None, text: ["GRAY", "GRAY", "47524159"] },
    E { key: &[239, 79], since: (50, &[4, 0]), until: None, text: ["DARKGRAY", "DARKGRAY", "4441524B47524159"] },
    E { key: &[239, 80], since: (50, &[4, 0]), until: None, text: ["Image1", "Image1", "496D61676531"] },
    E { key: &[239, 81], since: (50, &[4, 0]), until: None, text: ["Image2", "Image2", "496D61676532"] },
    E { key: &[239, 82], since: (50, &[4, 0]), until: None, text: ["Image3", "Image3", "496D61676533"] },
    E { key: &[239, 83], since: (50, &[4, 0]), until: None, text: ["Image4", "Image4", "496D61676534"] },
    E { key: &[239, 84], since: (50, &[4, 0]), until: None, text: ["Image5", "Image5", "496D61676535"] },
    E { key: &[239, 85], since: (50, &[4, 0]), until: None, text: ["Image6", "Image6", "496D61676536"] },
    E { key: &[239, 86], since: (50, &[4, 0]), until: None, text: ["Image7", "Image7", "496D61676537"] },
    E { key: &[239, 87], since: (50, &[4, 0]), until: None, text: ["Image8", "Image8", "496D61676538"] },
    E { key: &[239, 88], since: (50, &[4, 0]), until: None, text: ["Image9", "Image9", "496D61676539"] },
    E { key: &[239, 89], since: (50, &[4, 0]), until: None, text: ["Image0", "Image0", "496D61676530"] },
    E { key: &[239, 90], since: (50, &[4, 0]), until: None, text: ["GridLine ", "GridLine ", "477269644C696E6520"] },
    E { key: &[239, 91], since: (50, &[4, 0]), until: None, text: ["BackgroundOn ", "BackgroundOn ", "4261636B67726F756E644F6E20"] },
    E { key: &[239, 100], since: (50, &[4, 0]), until: None, text: ["BackgroundOff", "BackgroundOff", "4261636B67726F756E644F6666"] },
    E { key: &[239, 101], since: (50, &[4, 0]), until: None, text: ["GraphColor(", "GraphColor(", "4772617068436F6C6F7228"] },
    E { key: &[239, 102], since: (50, &[4, 0]), until: None, text: ["QuickPlot&Fit-EQ", "QuickPlot&Fit-EQ", "517569636B506C6F74264669742D4551"] },
    E { key: &[239, 103], since: (50, &[4, 0]), until: None, text: ["TextColor(", "TextColor(", "54657874436F6C6F7228"] },
    E { key: &[239, 104], since: (50, &[4, 0]), until: None, text: ["Asm84CPrgm", "Asm84CPrgm", "41736D3834435072676D"] },
    E { key: &[239, 106], since: (50, &[4, 0]), until: None, text: ["DetectAsymOn", "DetectAsymOn", "4465746563744173796D4F6E"] },
    E { key: &[239, 107], since: (50, &[4, 0]), until: None, text: ["DetectAsymOff", "DetectAsymOff", "4465746563744173796D4F6666"] },
    E { key: &[239, 108], since: (50, &[4, 0]), until: None, text: ["BorderColor ", "BorderColor ", "426F72646572436F6C6F7220"] },
    E { key: &[239, 115], since: (50, &[4, 0]), until: None, text: [".", "plottinydot", "F9"] },
    E { key: &[239, 116], since: (50, &[4, 0]), until: None, text: ["Thin", "Thin", "5468696E"] },
    E { key: &[239, 117], since: (50, &[4, 0]), until: None, text: ["Dot-Thin", "Dot-Thin", "446F742D5468696E"] },
    E { key: &[239, 121], since: (60, &[5, 0, 0]), until: None, text: ["PlySmlt2", "PlySmlt2", "506C79536D6C7432"] },
    E { key: &[239, 122], since: (60, &[5, 0, 0]), until: None, text: ["Asm84CEPrgm", "Asm84CEPrgm", "41736D383443455072676D"] },
    E { key: &[239, 129], since: (60, &[5, 1, 0]), until: None, text: ["Quartiles Setting…", "Quartiles Setting...", "5175617274696C65732053657474696E67CE"] },
    E { key: &[239, 130], since: (60, &[5, 2, 0]), until: None, text: ["u(𝑛-2)", "u(n-2)", "7528012D3229"] },
    E { key: &[239, 131], since: (60, &[5, 2, 0]), until: None, text: ["v(𝑛-2)", "v(n-2)", "7628012D3229"] },
    E { key: &[239, 132], since: (60, &[5, 2, 0]), until: None, text: ["w(𝑛-2)", "w(n-2)", "7728012D3229"] },
    E { key: &[239, 133], since: (60, &[5, 2, 0]), until: None, text: ["u(𝑛-1)", "u(n-1)", "7528012D3129"] },
    E { key: &[239, 134], since: (60, &[5, 2, 0]), until: None, text: ["v(𝑛-1)", "v(n-1)", "7628012D3129"] },
    E { key: &[239, 135], since: (60, &[5, 2, 0]), until: None, text: ["w(𝑛-1)", "w(n-1)", "7728012D3129"] },
    E { key: &[239, 136], since: (60, &[5, 2, 0]), until: None, text: ["u(𝑛)", "u(n)", "75280129"] },
    E { key: &[239, 137], since: (60, &[5, 2, 0]), until: None, text: ["v(𝑛)", "v(n)", "76280129"] },
    E { key: &[239, 138], since: (60, &[5, 2, 0]), until: None, text: ["w(𝑛)", "w(n)", "77280129"] },
    E { key: &[239, 139], since: (60, &[5, 2, 0]), until: None, text: ["u(𝑛+1)", "u(n+1)", "7528012B3129"] },
    E { key: &[239, 140], since: (60, &[5, 2, 0]), until: None, text: ["v(𝑛+1)", "v(n+1)", "7628012B3129"] },
    E { key: &[239, 141], since: (60, &[5, 2, 0]), until: None, text: ["w(𝑛+1)", "w(n+1)", "7728012B3129"] },
    E { key: &[239, 142], since: (60, &[5, 2, 0]), until: Some((60, &[5, 3, 0])), text: ["pieceWise(", "pieceWise(", "70696563655769736528"] },
    E { key: &[239, 143], since: (60, &[5, 2, 0]), until: None, text: ["SEQ(𝑛)", "SEQ(n)", "534551280129"] },
    E { key: &[239, 144], since: (60, &[5, 2, 0]), until: None, text: ["SEQ(𝑛+1)", "SEQ(n+1)", "53455128012B3129"] },
    E { key: &[239, 145], since: (60, &[5, 2, 0]), until: None, text: ["SEQ(𝑛+2)", "SEQ(n+2)", "53455128012B3229"] },
    E { key: &[239, 146], since: (60, &[5, 2, 0]), until: None, text: ["LEFT", "LEFT", "4C454654"] },
    E { key: &[239, 147], since: (60, &[5, 2, 0]), until: None, text: ["CENTER", "CENTER", "43454E544552"] },
    E { key: &[239, 148], since: (60, &[5, 2, 0]), until: None, text: ["RIGHT", "RIGHT", "5249474854"] },
    E { key: &[239, 149], since: (60, &[5, 2, 0]), until: None, text: ["invBinom(", "invBinom(", "696E7642696E6F6D28"] },
    E { key: &[239, 150], since: (60, &[5, 2, 0]), until: None, text: ["Wait ", "Wait ", "5761697420"] },
    E { key: &[239, 151], since: (60, &[5, 2, 0]), until: None, text: ["toString(", "toString(", "746F537472696E6728"] },
    E { key: &[239, 152], since: (60, &[5, 2, 0]), until: None, text: ["eval(", "eval(", "6576616C28"] },
    E { key: &[239, 158], since: (60, &[5, 3, 0]), until: None, text: ["Execute Program", "Execute Program", "457865637574652050726F6772616D"] },
    E { key: &[239, 159], since: (60, &[5, 3, 0]), until: None, text: ["Undo Clear", "Undo Clear", "556E646F20436C656172"] },
    E { key: &[239, 160], since: (60, &[5, 3, 0]), until: None, text: ["Insert Line Above", "Insert Line Above", "496E73657274204C696E652041626F7665"] },
    E { key: &[239, 161], since: (60, &[5, 3, 0]), until: None, text: ["Cut Line", "Cut Line", "437574204C696E65"] },
    E { key: &[239, 162], since: (60, &[5, 3, 0]), until: None, text: ["Copy Line", "Copy Line", "436F7079204C696E65"] },
    E { key: &[239, 163], since: (60, &[5, 3, 0]), until: None, text: ["Paste Line Below", "Paste Line Below", "5061737465204C696E652042656C6F77"] },
    E { key: &[239, 164], since: (60, &[5, 3, 0]), until: None, text: ["Insert Comment Above", "Insert Comment Above", "496E7365727420436F6D6D656E742041626F7665"] },
    E { key: &[239, 165], since: (60, &[5, 3, 0]), until: None, text: ["Quit Editor", "Quit Editor", "5175697420456469746F72"] },
    E { key: &[239, 166], since: (60, &[5, 3, 0]), until: None, text: ["piecewise(", "piecewise(", "70696563657769736528"] },
    E { key: &[240], since: (10, &[1, 0]), until: None, text: ["^", "^", "5E"] },
    E { key: &[241], since: (10, &[1, 0]), until: None, text: ["ˣ√", "xroot", "CD10"] },
    E { key: &[242], since: (10, &[1, 0]), until: None, text: ["1-Var Stats ", "1-Var Stats ", "312D56617220537461747320"] },
    E { key: &[243], since: (10, &[1, 0]), until: None, text: ["2-Var Stats ", "2-Var Stats ", "322D56617220537461747320"] },
    E { key: &[244], since: (10, &[1, 0]), until: None, text: ["LinReg(a+bx) ", "LinReg(a+bx) ", "4C696E52656728612B62782920"] },
    E { key: &[245], since: (10, &[1, 0]), until: None, text: ["ExpReg ", "ExpReg ", "45787052656720"] },
    E { key: &[246], since: (10, &[1, 0]), until: None, text: ["LnReg ", "LnReg ", "4C6E52656720"] },
    E { key: &[247], since: (10, &[1, 0]), until: None, text: ["PwrReg ", "PwrReg ", "50777252656720"] },
    E { key: &[248], since: (10, &[1, 0]), until: None, text: ["Med-Med ", "Med-Med ", "4D65642D4D656420"] },
    E { key: &[249], since: (10, &[1, 0]), until: None, text: ["QuadReg ", "QuadReg ", "5175616452656720"] },
    E { key: &[250], since: (10, &[1, 0]), until: None, text: ["ClrList ", "ClrList ", "436C724C69737420"] },
    E { key: &[251], since: (10, &[1, 0]), until: None, text: ["ClrTable", "ClrTable", "436C725461626C65"] },
    E { key: &[252], since: (10, &[1, 0]), until: None, text: ["Histogram", "Histogram", "486973746F6772616D"] },
    E { key: &[253], since: (10, &[1, 0]), until: None, text: ["xyLine", "xyLine", "78794C696E65"] },
    E { key: &[254], since: (10, &[1, 0]), until: None, text: ["Scatter", "Scatter", "53636174746572"] },
    E { key: &[255], since: (10, &[1, 0]), until: None, text: ["LinReg(ax+b) ", "LinReg(ax+b) ", "4C696E5265672861782B622920"] },
];

//! The token definitions, written by tools/gen_defs.py: byte code, and what a search prints.
pub static DEFS: &[(&str, &str)] = &[
    ("0x01", "syntax: value►DMS\nDisplays `value` in DMS format.\n\n"),
    ("0x02", "syntax: value►Dec\nDisplays a real or complex number, expression, list, or matrix in decimal format.\n\n"),
    ("0x03", "syntax: value►Frac\nDisplays a real or complex number, expression, list, or matrix as a fraction simplified to its simplest terms.\n\n"),
    ("0x04", "syntax: Store: value→variable\nStores `value` in `variable`.\n\n"),
    ("0x05", "syntax: Boxplot Plot#(type,Xlist[,freqlist,color#])\nDefines Plot# (1, 2, or 3) of type\n\n"),
    ("0x06", "syntax: [\nUsed to define matrices or lists.\n\n"),
    ("0x07", "syntax: ]\nUsed to define matrices or lists.\n\n"),
    ("0x08", "syntax: {\nUsed for entering lists or sets of numbers in mathematical operations.\n\n"),
    ("0x09", "syntax: }\nUsed for entering lists or sets of numbers in mathematical operations.\n\n"),
    ("0x0A", "syntax: ʳ\nNormally, when the calculator is in degree mode, the trigonometric functions only return values calculated in degrees. With the ʳ symbol you can have the angle evaluated as if in radian mode because it converts the angle into degrees.\n\n"),
    ("0x0B", "syntax: °\nNormally, when the calculator is in radian mode, the trigonometric functions only return values calculated in radians. With the ° symbol you can have the angle evaluated as if in degree mode because it converts the angle into radians.\n\n"),
    ("0x0C", "syntax: ⁻¹\nReturns the reciprocal of a number, equivalent to dividing 1 by the number. It also works for lists, by calculating the reciprocal of each element.\n\n"),
    ("0x0D", "syntax: ²\nRaises an input to the second power. If used on a list, it will return a list with all of the elements squared. If used on a matrix, it will return the second matrix power of the input matrix.\n\n"),
    ("0x0E", "syntax: ᵀ\nUsed to calculate the transpose of a matrix: it flips a matrix along its main diagonal. This means that the (i,j)th element becomes the (j,i)th element, and vice versa. As a result, the transpose of an M by N matrix is an N by M matrix.\n\n"),
    ("0x0F", "syntax: ³\nRaises an input to the third power. If used on a list, it will return a list with all of the elements cubed. If used on a matrix, it will return the third matrix power of the input matrix.\n\n"),
    ("0x10", "syntax: (\nGroups terms and control the order of operations.\n\n"),
    ("0x11", "syntax: )\nGroups terms and control the order of operations.\n\n"),
    ("0x12", "syntax: round(value[,#decimals])\nReturns a number, expression, list, or matrix rounded to `#decimals` ( 9).\n\n"),
    ("0x13", "syntax: pxl-Test(row,column)\nReturns 1 if pixel (`row`, `column`) is on, 0 if it is off;\n\n"),
    ("0x14", "syntax: augment( matrixA ,matrixB )\nReturns a matrix, which is `matrixB` appended to `matrixA` as new columns.\n\nsyntax: augment(listA,listB)\nReturns a list, which is `listB` concatenated to the end of `listA`.\n\n"),
    ("0x15", "syntax: rowSwap(matrix,rowA,rowB)\nReturns a matrix with `rowA` of `matrix` swapped with `rowB`.\n\n"),
    ("0x16", "syntax: row+(matrix,rowA,rowB)\nReturns a matrix with `rowA` of `matrix` added to `rowB` and stored in `rowB`.\n\n"),
    ("0x17", "syntax: *row(value,matrix,row)\nReturns a matrix with `row` of `matrix` multiplied by `value` and stored in `row`.\n\n"),
    ("0x18", "syntax: *row+(value,matrix,rowA,rowB)\nReturns a matrix with `rowA` of `matrix` multiplied by `value`, added to `rowB`, and stored in `rowB`.\n\n"),
    ("0x19", "syntax: max(valueA,valueB)\nReturns the larger of `valueA` and `valueB`.\n\nsyntax: max(list)\nReturns the larger of `valueA` and `valueB`.\n\nsyntax: max(list)\nReturns largest real or complex element in `list`.\n\nsyntax: max(listA,listB)\nReturns a real or complex list of the larger of each pair of elements in `listA` and `listB`.\n\nsyntax: max(value,list)\nReturns a real or complex list of the larger of `value` or each `list` element.\n\n"),
    ("0x1A", "syntax: min(valueA,valueB)\nReturns smaller of `valueA` and `valueB`.\n\nsyntax: min(list)\nReturns smallest real or complex element in `list`.\n\nsyntax: min(listA,listB)\nReturns real or complex list of the smaller of each pair of elements in `listA` and `listB`.\n\nsyntax: min(value,list)\nReturns a real or complex list of the smaller of `value` or each `list` element.\n\n"),
    ("0x1B", "syntax: R►Pr(x,y)\nReturns `R`, given rectangular coordinates `x` and `y` or a list of rectangular coordinates.\n\n"),
    ("0x1C", "syntax: R►Pθ(x,y)\nReturns θ, given rectangular coordinates `x` and `y` or a list of rectangular coordinates.\n\n"),
    ("0x1D", "syntax: P►Rx(r,θ)\nReturns `X`, given polar coordinates `r` and θ or a list of polar coordinates.\n\n"),
    ("0x1E", "syntax: P►Ry(r,θ)\nReturns `Y`, given polar coordinates `r` and θ or a list of polar coordinates.\n\n"),
    ("0x1F", "syntax: median(list[,freqlist])\nReturns the median of `list` with frequency `freqlist`.\n\n"),
    ("0x20", "syntax: randM(rows,columns)\nReturns a random matrix of `rows` × `columns`.\nMax rows x columns = 400 matrix elements.\n\n"),
    ("0x21", "syntax: mean(list[,freqlist])\nReturns the mean of `list` with frequency `freqlist`.\n\n"),
    ("0x22", "syntax: solve(expression,variable,guess,{lower,upper})\nSolves `expression` for `variable`, given an initial `guess` and `lower` and `upper` bounds within which the solution is sought.\n\n"),
    ("0x23", "syntax: seq(expression,variable,begin,end[,increment])\nReturns list created by evaluating `expression` with regard to `variable`, from `begin` to `end` by `increment.`\n\n"),
    ("0x24", "syntax: fnInt(expression,variable,lower,upper[,tolerance])\nReturns the function integral of `expression` with respect to `variable`, between `lower` and `upper`, with specified `tolerance`.\n\n"),
    ("0x25", "syntax: nDeriv(expression,variable,value[,ε])\nWhen command is used in Classic mode, returns approximate numerical derivative of `expression` with respect to `variable` at `value`, with specific tolerance ε.\nIn MathPrint mode, numeric derivative template pastes and uses default tolerance ε.\n\n"),
    ("0x27", "syntax: fMin(expression,variable,lower,upper[,tolerance])\nReturns the value of `variable` where the local minimum of `expression` occurs, between `lower` and `upper`, with specified `tolerance`.\n\n"),
    ("0x28", "syntax: fMax(expression,variable,lower,upper[,tolerance])\nReturns the value of `variable` where the local maximum of `expression` occurs, between `lower` and `upper`,with specified `tolerance`.\n\n"),
    ("0x29", "syntax:  \nSpace\n\n"),
    ("0x2A", "syntax: \"\nUsed to denote a string\n\n"),
    ("0x2B", "syntax: ,\nA character symbol.\n\n"),
    ("0x2C", "syntax: i\nReturns the complex number `i`.\n\n"),
    ("0x2D", "syntax: !\nA character symbol.\n\n"),
    ("0x2E", "syntax: CubicReg [Xlistname,Ylistname,freqlist,regequ]\nFits a cubic regression model to `Xlistname` and `Ylistname` with frequency `freqlist`, and stores the regression equation to `regequ`.\n\n"),
    ("0x2F", "syntax: QuartReg [Xlistname,Ylistname,freqlist,regequ]\nFits a quartic regression model to` Xlistname` and `Ylistname` with frequency `freqlist`, and stores the regression equation to `regequ`.\n\n"),
    ("0x30", "syntax: 0\nNumber 0\n\n"),
    ("0x31", "syntax: 1\nNumber 1\n\n"),
    ("0x32", "syntax: 2\n Number 2\n\n"),
    ("0x33", "syntax: 3\nNumber 3\n\n"),
    ("0x34", "syntax: 4\nNumber 4\n\n"),
    ("0x35", "syntax: 5\nNumber 5\n\n"),
    ("0x36", "syntax: 6\nNumber 6\n\n"),
    ("0x37", "syntax: 7\n Number 7\n\n"),
    ("0x38", "syntax: 8\nNumber 8\n\n"),
    ("0x39", "syntax: 9\nNumber 9\n\n"),
    ("0x3A", "syntax: .\nA character symbol.\n\n"),
    ("0x3B", "syntax: Exponent:valueᴇexponent\nReturns `value` times 10 to the `exponent`.\n\nsyntax: Exponent:listᴇexponent\nReturns `list` elements times 10 to the `exponent`.\n\nsyntax: Exponent:matrixᴇexponent\nReturns `matrix` elements times 10 to the `exponent`.\n\n"),
    ("0x3C", "syntax: valueA or valueB\nReturns 1 if `valueA` or `valueB` is ≠ 0. `valueA` and `valueB` can be real numbers, expressions, or lists.\n\n"),
    ("0x3D", "syntax: valueA xor valueB\nReturns 1 if only `valueA` or `valueB` = 0. `valueA` and `valueB` can be real numbers, expressions, or lists.\n\n"),
    ("0x3E", "syntax: :\nA character symbol.\n\n"),
    ("0x3F", "syntax: \n\nCreates a new line in text output.\n\n"),
    ("0x40", "syntax: valueA and valueB\nReturns 1 (true) when both `valueA` and `valueB` are true.  Otherwise, return is 0 (false).\n`valueA` and `valueB` can be real numbers, expressions, or lists.\nTI Connect™ Program Editor Tip:\nNotice the token is \"_and_\" where \"_\" is a space.\n\n"),
    ("0x41", "syntax: A\nThe letter A\n\n"),
    ("0x42", "syntax: B\nThe letter B\n\n"),
    ("0x43", "syntax: C\nThe letter C\n\n"),
    ("0x44", "syntax: D\nThe letter D\n\n"),
    ("0x45", "syntax: E\nThe letter E\n\n"),
    ("0x46", "syntax: F\nThe letter F\n\n"),
    ("0x47", "syntax: G\nThe letter G\n\n"),
    ("0x48", "syntax: H\nThe letter H\n\n"),
    ("0x49", "syntax: I\nThe letter I\n\n"),
    ("0x4A", "syntax: J\nThe letter J\n\n"),
    ("0x4B", "syntax: K\nThe letter K\n\n"),
    ("0x4C", "syntax: L\nThe letter L\n\n"),
    ("0x4D", "syntax: M\nThe letter M\n\n"),
    ("0x4E", "syntax: N\nThe letter N\n\n"),
    ("0x4F", "syntax: O\nThe letter O\n\n"),
    ("0x50", "syntax: P\nThe letter P\n\n"),
    ("0x51", "syntax: Q\nTHe letter Q\n\n"),
    ("0x52", "syntax: R\nThe letter R\n\n"),
    ("0x53", "syntax: S\nThe letter S\n\n"),
    ("0x54", "syntax: T\nThe letter T\n\n"),
    ("0x55", "syntax: U\nThe letter U\n\n"),
    ("0x56", "syntax: V\nThe letter V\n\n"),
    ("0x57", "syntax: W\nThe letter W\n\n"),
    ("0x58", "syntax: X\nThe letter X\n\n"),
    ("0x59", "syntax: Y\nThe letter Y\n\n"),
    ("0x5A", "syntax: Z\nThe letter Z\n\n"),
    ("0x5B", "syntax: θ\nUsually represents the angular position of a vector.\n\n"),
    ("0x5C00", "syntax: [A]\nUsed for matricies.\n\n"),
    ("0x5C01", "syntax: [B]\nUsed for matricies.\n\n"),
    ("0x5C02", "syntax: [C]\nUsed for matricies.\n\n"),
    ("0x5C03", "syntax: [D]\nUsed for matricies.\n\n"),
    ("0x5C04", "syntax: [E]\nUsed for matricies.\n\n"),
    ("0x5C05", "syntax: [F]\nUsed for matricies.\n\n"),
    ("0x5C06", "syntax: [G]\nUsed for matricies.\n\n"),
    ("0x5C07", "syntax: [H]\nUsed for matricies.\n\n"),
    ("0x5C08", "syntax: [I]\nUsed for matricies.\n\n"),
    ("0x5C09", "syntax: [J]\nUsed for matricies.\n\n"),
    ("0x5D00", "syntax: L₁\nUsed for lists.\n\n"),
    ("0x5D01", "syntax: L₂\nUsed for lists.\n\n"),
    ("0x5D02", "syntax: L₃\nUsed for lists.\n\n"),
    ("0x5D03", "syntax: L₄\nUsed for lists.\n\n"),
    ("0x5D04", "syntax: L₅\nUsed for lists.\n\n"),
    ("0x5D05", "syntax: L₆\nUsed for lists.\n\n"),
    ("0x5E10", "syntax: Y₁\nUsed for equations.\n\n"),
    ("0x5E11", "syntax: Y₂\nUsed for equations.\n\n"),
    ("0x5E12", "syntax: Y₃\nUsed for equations.\n\n"),
    ("0x5E13", "syntax: Y₄\nUsed for equations.\n\n"),
    ("0x5E14", "syntax: Y₅\nUsed for equations.\n\n"),
    ("0x5E15", "syntax: Y₆\nUsed for equations.\n\n"),
    ("0x5E16", "syntax: Y₇\nUsed for equations.\n\n"),
    ("0x5E17", "syntax: Y₈\nUsed for equations.\n\n"),
    ("0x5E18", "syntax: Y₉\nUsed for equations.\n\n"),
    ("0x5E19", "syntax: Y₀\nUsed for equations.\n\n"),
    ("0x5E20", "syntax: X₁ᴛ\nUsed for equations.\n\n"),
    ("0x5E21", "syntax: Y₁ᴛ\nUsed for equations.\n\n"),
    ("0x5E22", "syntax: X₂ᴛ\nUsed for equations.\n\n"),
    ("0x5E23", "syntax: Y₂ᴛ\nUsed for equations.\n\n"),
    ("0x5E24", "syntax: X₃ᴛ\nUsed for equations.\n\n"),
    ("0x5E25", "syntax: Y₃ᴛ\nUsed for equations.\n\n"),
    ("0x5E26", "syntax: X₄ᴛ\nUsed for equations.\n\n"),
    ("0x5E27", "syntax: Y₄ᴛ\nUsed for equations.\n\n"),
    ("0x5E28", "syntax: X₅ᴛ\nUsed for equations.\n\n"),
    ("0x5E29", "syntax: Y₅ᴛ\nUsed for equations.\n\n"),
    ("0x5E2A", "syntax: X₆ᴛ\nUsed for equations.\n\n"),
    ("0x5E2B", "syntax: Y₆ᴛ\nUsed for equations.\n\n"),
    ("0x5E40", "syntax: r₁\nUsed for equations.\n\n"),
    ("0x5E41", "syntax: r₂\nUsed for equations.\n\n"),
    ("0x5E42", "syntax: r₃\nUsed for equations.\n\n"),
    ("0x5E43", "syntax: r₄\nUsed for equations.\n\n"),
    ("0x5E44", "syntax: r₅\nUsed for equations.\n\n"),
    ("0x5E45", "syntax: r₆\nUsed for equations.\n\n"),
    ("0x5E80", "syntax: |u\nUsed for equations.\n\n"),
    ("0x5E81", "syntax: |v\nUsed for equations.\n\n"),
    ("0x5E82", "syntax: |w\nUsed for equations.\n\n"),
    ("0x5F", "syntax: prgmname\nExecutes the program `name`.\n\n"),
    ("0x6000", "syntax: Pic1\nUsed for pictures.\n\n"),
    ("0x6001", "syntax: Pic2\nUsed for pictures.\n\n"),
    ("0x6002", "syntax: Pic3\nUsed for pictures.\n\n"),
    ("0x6003", "syntax: Pic4\nUsed for pictures.\n\n"),
    ("0x6004", "syntax: Pic5\nUsed for pictures.\n\n"),
    ("0x6005", "syntax: Pic6\nUsed for pictures.\n\n"),
    ("0x6006", "syntax: Pic7\nUsed for pictures.\n\n"),
    ("0x6007", "syntax: Pic8\nUsed for pictures.\n\n"),
    ("0x6008", "syntax: Pic9\nUsed for pictures.\n\n"),
    ("0x6009", "syntax: Pic0\nUsed for pictures.\n\n"),
    ("0x6100", "syntax: GDB1\nUsed to store graph settings.\n\n"),
    ("0x6101", "syntax: GDB2\nUsed to store graph settings.\n\n"),
    ("0x6102", "syntax: GDB3\nUsed to store graph settings.\n\n"),
    ("0x6103", "syntax: GDB4\nUsed to store graph settings.\n\n"),
    ("0x6104", "syntax: GDB5\nUsed to store graph settings.\n\n"),
    ("0x6105", "syntax: GDB6\nUsed to store graph settings.\n\n"),
    ("0x6106", "syntax: GDB7\nUsed to store graph settings.\n\n"),
    ("0x6107", "syntax: GDB8\nUsed to store graph settings.\n\n"),
    ("0x6108", "syntax: GDB9\nUsed to store graph settings.\n\n"),
    ("0x6109", "syntax: GDB0\nUsed to store graph settings.\n\n"),
    ("0x6201", "syntax: RegEQ\nPastes the contents of the regression equation when selected — it's invalid as a token.\n\n"),
    ("0x6202", "syntax: n\nUsed for statistics.\n\n"),
    ("0x6203", "syntax: x̄\nUsed for statistics.\n\n"),
    ("0x6204", "syntax: Σx\nUsed for statistics.\n\n"),
    ("0x6205", "syntax: Σx²\nUsed for statistics.\n\n"),
    ("0x6206", "syntax: [Sx]\nUsed for statistics.\n\n"),
    ("0x6207", "syntax: σx\nUsed for statistics.\n\n"),
    ("0x6208", "syntax: [minX]\nUsed for statistics.\n\n"),
    ("0x6209", "syntax: [maxX]\nUsed for statistics.\n\n"),
    ("0x620A", "syntax: [minY]\nUsed for statistics.\n\n"),
    ("0x620B", "syntax: [maxY]\nUsed for statistics.\n\n"),
    ("0x620C", "syntax: ȳ\nUsed for statistics.\n\n"),
    ("0x620D", "syntax: Σy\nUsed for statistics.\n\n"),
    ("0x620E", "syntax: Σy²\nUsed for statistics.\n\n"),
    ("0x620F", "syntax: [Sy]\nUsed for statistics.\n\n"),
    ("0x6210", "syntax: σy\nUsed for statistics.\n\n"),
    ("0x6211", "syntax: Σxy\nUsed for statistics.\n\n"),
    ("0x6212", "syntax: [r]\nUsed for statistics.\n\n"),
    ("0x6213", "syntax: [Med]\nUsed for statistics.\n\n"),
    ("0x6214", "syntax: Q₁\nUsed for statistics.\n\n"),
    ("0x6215", "syntax: Q₃\nUsed for statistics.\n\n"),
    ("0x6216", "syntax: [|a]\nUsed for statistics.\n\n"),
    ("0x6217", "syntax: [|b]\nUsed for statistics.\n\n"),
    ("0x6218", "syntax: [|c]\nUsed for statistics.\n\n"),
    ("0x6219", "syntax: [|d]\nUsed for statistics.\n\n"),
    ("0x621A", "syntax: [|e]\nUsed for statistics.\n\n"),
    ("0x621B", "syntax: x₁\nUsed for statistics.\n\n"),
    ("0x621C", "syntax: x₂\nUsed for statistics.\n\n"),
    ("0x621D", "syntax: x₃\nUsed for statistics.\n\n"),
    ("0x621E", "syntax: y₁\nUsed for statistics.\n\n"),
    ("0x621F", "syntax: y₂\nUsed for statistics.\n\n"),
    ("0x6220", "syntax: y₃\nUsed for statistics.\n\n"),
    ("0x6221", "syntax: 𝑛\nUsed for statistics.\n\n"),
    ("0x6222", "syntax: [p]\nUsed for statistics.\n\n"),
    ("0x6223", "syntax: [z]\nUsed for statistics.\n\n"),
    ("0x6224", "syntax: [t]\nUsed for statistics.\n\n"),
    ("0x6225", "syntax: χ²\nUsed for statistics.\n\n"),
    ("0x6226", "syntax: [|F]\nUsed for statistics.\n\n"),
    ("0x6227", "syntax: [df]\nUsed for statistics.\n\n"),
    ("0x6228", "syntax: p̂\nUsed for statistics.\n\n"),
    ("0x6229", "syntax: p̂₁\nUsed for statistics.\n\n"),
    ("0x622A", "syntax: p̂₂\nUsed for statistics.\n\n"),
    ("0x622B", "syntax: x̄₁\nUsed for statistics.\n\n"),
    ("0x622C", "syntax: Sx₁\nUsed for statistics.\n\n"),
    ("0x622D", "syntax: n₁\nUsed for statistics.\n\n"),
    ("0x622E", "syntax: x̄₂\nUsed for statistics.\n\n"),
    ("0x622F", "syntax: Sx₂\nUsed for statistics.\n\n"),
    ("0x6230", "syntax: n₂\nUsed for statistics.\n\n"),
    ("0x6231", "syntax: Sxp\nUsed for statistics.\n\n"),
    ("0x6232", "syntax: lower\nUsed for statistics.\n\n"),
    ("0x6233", "syntax: upper\nUsed for statistics.\n\n"),
    ("0x6234", "syntax: [s]\nUsed for statistics.\n\n"),
    ("0x6235", "syntax: r²\nUsed for statistics.\n\n"),
    ("0x6236", "syntax: R²\nUsed for statistics.\n\n"),
    ("0x6237", "syntax: [factordf]\nUsed for statistics.\n\n"),
    ("0x6238", "syntax: [factorSS]\nUsed for statistics.\n\n"),
    ("0x6239", "syntax: [factorMS]\nUsed for statistics.\n\n"),
    ("0x623A", "syntax: [errordf]\nUsed for statistics.\n\n"),
    ("0x623B", "syntax: [errorSS]\nUsed for statistics.\n\n"),
    ("0x623C", "syntax: [errorMS]\nUsed for statistics.\n\n"),
    ("0x6300", "syntax: ZXscl\nUsed for window and finance.\n\n"),
    ("0x6301", "syntax: ZYscl\nUsed for window and finance.\n\n"),
    ("0x6302", "syntax: Xscl\nUsed for window and finance.\n\n"),
    ("0x6303", "syntax: Yscl\nUsed for window and finance.\n\n"),
    ("0x6304", "syntax: u(𝑛Min)\nUsed for window and finance.\n\n"),
    ("0x6305", "syntax: v(𝑛Min)\nUsed for window and finance.\n\n"),
    ("0x6306", "syntax: U𝑛-₁\nUsed for window and finance.\n\n"),
    ("0x6307", "syntax: V𝑛-₁\nUsed for window and finance.\n\n"),
    ("0x6308", "syntax: Zu(𝑛Min)\nUsed for window and finance.\n\n"),
    ("0x6309", "syntax: Zv(𝑛Min)\nUsed for window and finance.\n\n"),
    ("0x630A", "syntax: Xmin\nUsed for window and finance.\n\n"),
    ("0x630B", "syntax: Xmax\nUsed for window and finance.\n\n"),
    ("0x630C", "syntax: Ymin\nUsed for window and finance.\n\n"),
    ("0x630D", "syntax: Ymax\nUsed for window and finance.\n\n"),
    ("0x630E", "syntax: Tmin\nUsed for window and finance.\n\n"),
    ("0x630F", "syntax: Tmax\nUsed for window and finance.\n\n"),
    ("0x6310", "syntax: θMin\nUsed for window and finance.\n\n"),
    ("0x6311", "syntax: θMax\nUsed for window and finance.\n\n"),
    ("0x6312", "syntax: ZXmin\nUsed for window and finance.\n\n"),
    ("0x6313", "syntax: ZXmax\nUsed for window and finance.\n\n"),
    ("0x6314", "syntax: ZYmin\nUsed for window and finance.\n\n"),
    ("0x6315", "syntax: ZYmax\nUsed for window and finance.\n\n"),
    ("0x6316", "syntax: Zθmin\nUsed for window and finance.\n\n"),
    ("0x6317", "syntax: Zθmax\nUsed for window and finance.\n\n"),
    ("0x6318", "syntax: ZTmin\nUsed for window and finance.\n\n"),
    ("0x6319", "syntax: ZTmax\nUsed for window and finance.\n\n"),
    ("0x631A", "syntax: TblStart\nUsed for window and finance.\n\n"),
    ("0x631B", "syntax: PlotStart\nUsed for window and finance.\n\n"),
    ("0x631C", "syntax: ZPlotStart\nUsed for window and finance.\n\n"),
    ("0x631D", "syntax: 𝑛Max\nUsed for window and finance.\n\n"),
    ("0x631E", "syntax: Z𝑛Max\nUsed for window and finance.\n\n"),
    ("0x631F", "syntax: 𝑛Min\nUsed for window and finance.\n\n"),
    ("0x6320", "syntax: Z𝑛Min\nUsed for window and finance.\n\n"),
    ("0x6321", "syntax: ∆Tbl\nUsed for window and finance.\n\n"),
    ("0x6322", "syntax: Tstep\nUsed for window and finance.\n\n"),
    ("0x6323", "syntax: θstep\nUsed for window and finance.\n\n"),
    ("0x6324", "syntax: ZTstep\nUsed for window and finance.\n\n"),
    ("0x6325", "syntax: Zθstep\nUsed for window and finance.\n\n"),
    ("0x6326", "syntax: ∆X\nUsed for window and finance.\n\n"),
    ("0x6327", "syntax: ∆Y\nUsed for window and finance.\n\n"),
    ("0x6328", "syntax: XFact\nUsed for window and finance.\n\n"),
    ("0x6329", "syntax: YFact\nUsed for window and finance.\n\n"),
    ("0x632A", "syntax: TblInput\nUsed for window and finance.\n\n"),
    ("0x632B", "syntax: 𝗡\nUsed for window and finance.\n\n"),
    ("0x632C", "syntax: I%\nUsed for window and finance.\n\n"),
    ("0x632D", "syntax: PV\nUsed for window and finance.\n\n"),
    ("0x632E", "syntax: PMT\nUsed for window and finance.\n\n"),
    ("0x632F", "syntax: FV\nUsed for window and finance.\n\n"),
    ("0x6330", "syntax: |P/Y\nUsed for window and finance.\n\n"),
    ("0x6331", "syntax: |C/Y\nUsed for window and finance.\n\n"),
    ("0x6332", "syntax: w(𝑛Min)\nUsed for window and finance.\n\n"),
    ("0x6333", "syntax: Zw(𝑛Min)\nUsed for window and finance.\n\n"),
    ("0x6334", "syntax: PlotStep\nUsed for window and finance.\n\n"),
    ("0x6335", "syntax: ZPlotStep\nUsed for window and finance.\n\n"),
    ("0x6336", "syntax: Xres\nUsed for window and finance.\n\n"),
    ("0x6337", "syntax: ZXres\nUsed for window and finance.\n\n"),
    ("0x6338", "syntax: TraceStep\nUsed for window and finance.\n\n"),
    ("0x64", "syntax: Radian\nSets radian angle mode.\n\n"),
    ("0x65", "syntax: Degree\nSets degree angle mode.\n\n"),
    ("0x66", "syntax: Normal\nSets normal display mode.\n\n"),
    ("0x67", "syntax: Sci\nSets scientific notation display mode.\n\n"),
    ("0x68", "syntax: Eng\nSets engineering display mode.\n\n"),
    ("0x69", "syntax: Float\nSets floating decimal mode.\n\n"),
    ("0x6A", "syntax: =\nEqual sign.\n\n"),
    ("0x6B", "syntax: <\nLess than sign.\n\n"),
    ("0x6C", "syntax: >\nGreater than sign.\n\n"),
    ("0x6D", "syntax: ≤\nLess than or equal to sign.\n\n"),
    ("0x6E", "syntax: ≥\nGreater than or equal to sign.\n\n"),
    ("0x6F", "syntax: ≠\nNot euqal to sign.\n\n"),
    ("0x70", "syntax: +\nAddition sign.\n\n"),
    ("0x71", "syntax: -\nSubtraction sign.\n\n"),
    ("0x72", "syntax: Ans\nReturns the last answer.\n\n"),
    ("0x73", "syntax: Fix #\nSets fixed-decimal mode for # of decimal places.\n\n"),
    ("0x74", "syntax: Horiz\nSets horizontal split-screen mode.\n\n"),
    ("0x75", "syntax: Full\nSets full screen mode.\n\n"),
    ("0x76", "syntax: Func\nSets function graphing mode.\n\n"),
    ("0x77", "syntax: Param\nSets parametric graphing mode.\n\n"),
    ("0x78", "syntax: Polar\nSets polar graphing mode.\n\n"),
    ("0x79", "syntax: Seq\nSets sequence graphing mode.\n\n"),
    ("0x7A", "syntax: IndpntAuto\nSets table to generate independent-variable values automatically.\n\n"),
    ("0x7B", "syntax: IndpntAsk\nSets table to ask for independent-variable values.\n\n"),
    ("0x7C", "syntax: DependAuto\nSets table to generate dependent-variable values automatically.\n\n"),
    ("0x7D", "syntax: DependAsk\nSets table to ask for dependent-variable values.\n\n"),
    ("0x7E00", "syntax: Sequential\nSets mode to graph functions sequentially.\n\n"),
    ("0x7E01", "syntax: Simul\nSets mode to graph functions simultaneously.\n\n"),
    ("0x7E02", "syntax: PolarGC\nSets polar graphing coordinates format.\n\n"),
    ("0x7E03", "syntax: RectGC\nSets rectangular graphing coordinates format.\n\n"),
    ("0x7E04", "syntax: CoordOn\nTurns on cursor coordinate value display.\n\n"),
    ("0x7E05", "syntax: CoordOff\nTurns off cursor coordinate value display.\n\n"),
    ("0x7E06", "syntax: Thick\nResets all Y=editor line-style settings to Thick.\n\n"),
    ("0x7E07", "syntax: Dot-Thick\nSets dot plotting mode; resets all Y=editor graph-style settings to Dot-Thick.\n\n"),
    ("0x7E08", "syntax: AxesOn[color#]\nTurns on the graph axes with color. The `color `option allows the color of the axes to be specified.\nColor#: 10 - 24 or color name pasted from [vars] COLOR..\n\n"),
    ("0x7E09", "syntax: AxesOff\nTurns off the graph axes.\n\n"),
    ("0x7E0A", "syntax: GridDot [color#]\nTurns on grid dots in the graph area in the specified color.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\n"),
    ("0x7E0B", "syntax: GridOff\nTurns off grid format.\n\n"),
    ("0x7E0C", "syntax: LabelOn\nTurns on axes labels.\n\n"),
    ("0x7E0D", "syntax: LabelOff\nTurns off axes labels.\n\n"),
    ("0x7E0E", "syntax: Web\nSets sequence graphs to trace as webs.\n\n"),
    ("0x7E0F", "syntax: Time\nSets sequence graphs to plot with respect to time.\n\n"),
    ("0x7E10", "syntax: uvAxes\nSets sequence graphs to plot `u(n``)` on the x-axis and `v(``n``)` on the y-axis.\n\n"),
    ("0x7E11", "syntax: vwAxes\nSets sequence graphs to plot `v(n``)` on the x-axis and `w(``n``)` on the y-axis.\n\n"),
    ("0x7E12", "syntax: uwAxes\nSets sequence graphs to plot `u(n``)` on the x-axis and `w(``n``)` on the y-axis.\n\n"),
    ("0x7F", "syntax: □\nSquare plot.\n\n"),
    ("0x80", "syntax: ﹢\nCross plot.\n\n"),
    ("0x81", "syntax: ·\nDot plot\n\n"),
    ("0x82", "syntax: *\nMultiplication sign.\n\n"),
    ("0x83", "syntax: /\nDivision sign.\n\n"),
    ("0x84", "syntax: Trace\nDisplays the graph and enters TRACE mode.\n\n"),
    ("0x85", "syntax: ClrDraw\nClears all drawn elements from a graph or drawing.\n\n"),
    ("0x86", "syntax: ZStandard\nReplots the functions immediately, updating the window variables to the default values.\n\n"),
    ("0x87", "syntax: ZTrig\nReplots the functions immediately, updating the window variables to preset values for plotting trig functions.\n\n"),
    ("0x88", "syntax: ZBox\nDisplays a graph, lets you draw a box that defines a new viewing window, and updates the window.\n\n"),
    ("0x89", "syntax: Zoom In\nMagnifies the part of the graph that surrounds the cursor location.\n\n"),
    ("0x8A", "syntax: Zoom Out\nDisplays a greater portion of the graph, centered on the cursor location.\n\n"),
    ("0x8B", "syntax: ZSquare\nAdjusts the `X` or `Y` window settings so that each pixel represents an equal width and height in the coordinate system, and updates the viewing window.\n\n"),
    ("0x8C", "syntax: ZInteger\nRedefines the viewing window using the following dimensions: `TraceStep=1, `Δ`X=0.5, Xscl=10, `Δ`Y=1, Yscl=10.`\n\n"),
    ("0x8D", "syntax: ZPrevious\nReplots the graph using the window variables of the graph that was displayed before you executed the last ZOOM instruction.\n\n"),
    ("0x8E", "syntax: ZDecimal\nAdjusts the viewing window so that `TraceStep=0.1`, Δ`X=0.5` and Δ`Y=0.5`, and displays the graph screen with the origin centered on the screen.\n\n"),
    ("0x8F", "syntax: ZoomStat\nRedefines the viewing window so that all statistical data points are displayed.\n\n"),
    ("0x90", "syntax: ZoomRcl\nGraphs the selected functions in a user-defined viewing window.\n\n"),
    ("0x91", "syntax: PrintScreen\nOn the TI-82 prints the current screen on a printer attached to an IBM®-compatible computer or a Macintosh® if you are using TI-GRAPH LINK. On TI-83 series it causes an error.\n\n"),
    ("0x92", "syntax: ZoomSto\nImmediately stores the current viewing window.\n\n"),
    ("0x93", "syntax: Text(row,column,text1,text2,...,text n)\nWrites `text` on graph beginning at pixel (`row`,`column`), where 0 ≤ `row` ≤ 164 and 0 ≤ `column` ≤ 264.\nFull mode, row must be <=148; column must be 256\nHoriz mode, row must be row<=66 and column must be <=256\nG-T mode, row must be row <=126; column must be 176\n\n"),
    ("0x94", "syntax: valueA nPr valueB\nReturns the number of permutations of `valueA` taken `valueB` at a time.\n\nsyntax: value nPr list\nReturns a list of the permutations of `value` taken each element in `list` at a time.\n\nsyntax: list nPr value\nReturns a list of the permutations of each element in `list` taken `value` at a time.\n\nsyntax: listA nPr listB\nReturns a list of the permutations of each element in `listA` taken each element in `listB` at a time.\n\n"),
    ("0x95", "syntax: valueA nCr valueB\nReturns the number of combinations of `valueA` taken `valueB` at a time.\n\nsyntax: value nCr list\nReturns a list of the combinations of `value` taken each element in `list` at a time.\n\nsyntax: list nCr value\nReturns a list of the combinations of each element in `list` taken `value` at a time.\n\nsyntax: listA nCr listB\nReturns a list of the combinations of each element in `listA` taken each element in `listB` at a time.\n\n"),
    ("0x96", "syntax: FnOn [function#,function#,...,function n]\nSelects all `Y=` functions or specified `Y=` functions.\n\n"),
    ("0x97", "syntax: FnOff [function#,function#,...,function n]\nDeselects all `Y=` functions or specified `Y=` functions.\n\n"),
    ("0x98", "syntax: StorePic n\nStores current picture in picture `Picn`.\n\n"),
    ("0x99", "syntax: RecallPic n\nDisplays the graph and adds the picture stored in `Picn`.\n\n"),
    ("0x9A", "syntax: StoreGDB n\nStores current graph in database `GDBn`.\n\n"),
    ("0x9B", "syntax: RecallGDB n\nRestores all settings stored in the graph database variable `GDBn`.\n\n"),
    ("0x9C", "syntax: Line(X1,Y1,X2,Y2[,erase#,color#,linestyle#])\nDraws a line from (`X1`,`Y1`) to (`X2`,`Y2`) with the following options: erase #: 1,0, color #: 10-24, and line style #: 1-4.\n\nsyntax: Line(X1,Y1,X2,Y2,0[,line#])\nErases a line (erase #: 1,0) from (`X1`,`Y1`) to (`X2`,`Y2`).\n\n"),
    ("0x9D", "syntax: Vertical x[,color#,linestyle#]\nDraws a vertical line at `x `with specified color and line style.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\nline style #: 1-4.\n\n"),
    ("0x9E", "syntax: Pt-On(x,y[,mark,color#])\nDraws a point at (`x`,`y`) on the graph area using `mark `and the specified `color#`.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\n"),
    ("0x9F", "syntax: Pt-Off(x,y[,mark])\nErases a point at (`x`,`y`) on the graph area using `mark`. The Off state may be the background color determined by the `ImageVar` or `color` setting.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\n"),
    ("0xA0", "syntax: Pt-Change(x,y[,color#])\nToggles a point on or off at (`x`,`y`) on the graph area. Off will be in the Background color and On will be the specified\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\n"),
    ("0xA1", "syntax: Pxl-On(row,column[,color#])\nDraws pixel on the graph area at (`row`,`column`) in the specified color.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\n"),
    ("0xA2", "syntax: Pxl-Off(row,column)\nThe Off state will display the set Background Image Var or COLOR.\n\n"),
    ("0xA3", "syntax: Pxl-Change(row,column[,color#])\nToggles Off to On in the graph area: with specified color# Toggles On to Off in the graph area: Off will display the set Background Image Var or Color.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\n"),
    ("0xA4", "syntax: Shade(lowerfunc,upperfunc[,Xleft,Xright,pattern,patres,color#])\nDraws `lowerfunc` and `upperfunc` in terms of `X` on the current graph and uses `pattern` and `patres` to shade and color the area bounded by `lowerfunc`, `upperfunc`, `Xleft`, and `Xright`. `lowerfunc `and `upperfunc `are shaded in the same specified color.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\n"),
    ("0xA5", "syntax: Circle(X,Y,radius[,color#,linestyle#])\nDraws a circle with center (`X`,`Y`) and `radius` with specified\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\nlinestyle#: 1-2.\n\n"),
    ("0xA6", "syntax: Horizontal y[,color#,linestyle#]\nDraws a horizontal line at `y` in a specified\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\nline style #: 1-4.\n\n"),
    ("0xA7", "syntax: Tangent(expression,value[,color#,linestyle#])\nDraws a line tangent to `expression` at `X`=`value` with specified `color` #: 10-24 and line style `linestyle #: `1-2.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\n"),
    ("0xA8", "syntax: DrawInvexpression[,color#]\nDraws the inverse of `expression` by plotting `X` values on the y-axis and `Y` values on the x-axis with specified\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\n"),
    ("0xA9", "syntax: DrawFexpression[,color#]\nDraws `expression` (in terms of `X`) on the graph with specified\nColor#:10 - 24 or color name pasted from [vars] COLOR.\n\n"),
    ("0xAA00", "syntax: Str1\nUsed to store and manipulate strings.\n\n"),
    ("0xAA01", "syntax: Str2\nUsed to store and manipulate strings.\n\n"),
    ("0xAA02", "syntax: Str3\nUsed to store and manipulate strings.\n\n"),
    ("0xAA03", "syntax: Str4\nUsed to store and manipulate strings.\n\n"),
    ("0xAA04", "syntax: Str5\nUsed to store and manipulate strings.\n\n"),
    ("0xAA05", "syntax: Str6\nUsed to store and manipulate strings.\n\n"),
    ("0xAA06", "syntax: Str7\nUsed to store and manipulate strings.\n\n"),
    ("0xAA07", "syntax: Str8\nUsed to store and manipulate strings.\n\n"),
    ("0xAA08", "syntax: Str9\nUsed to store and manipulate strings.\n\n"),
    ("0xAA09", "syntax: Str0\nUsed to store and manipulate strings.\n\n"),
    ("0xAB", "syntax: rand[(numtrials)]\nReturns a random number between 0 and 1 for a specified number of trials `numtrials`.\n\n"),
    ("0xAC", "syntax: π\nApproximates the mathematical constant π (pi)\n\n"),
    ("0xAD", "syntax: getKey\nReturns the key code for the current keystroke, or `0`, if no key is pressed.\n\n"),
    ("0xAE", "syntax: '\nA character symbol.\n\n"),
    ("0xAF", "syntax: ?\nA character symbol.\n\n"),
    ("0xB0", "syntax: ⁻\nNegative symbol\n\n"),
    ("0xB1", "syntax: int(value)\nReturns the largest integer ≤ a real or complex number, expression, list, or matrix.\n\n"),
    ("0xB2", "syntax: abs(value)\nReturns the absolute value of a real number, expression, list, or matrix.\n\nsyntax: abs(complex value)\nReturns the magnitude of a complex number or list.\n\n"),
    ("0xB3", "syntax: det(matrix)\nReturns determinant of `matrix`.\n\n"),
    ("0xB4", "syntax: identity(dimension)\nReturns the identity matrix of `dimension` rows x `dimension` columns.\n\n"),
    ("0xB5", "syntax: dim(listname)\nReturns the dimension of `listname`.\n\nsyntax: dim(matrixname)\nReturns the dimension of `matrixname` as a list.\n\nsyntax: length→dim(listname)\nAssigns a new dimension (`length`) to a new or existing `listname`.\n\nsyntax: {rows,columns}→dim(matrixname)\nAssigns new dimensions to a new or existing `matrixname`.\n\n"),
    ("0xB6", "syntax: sum(list[,start,end])\nReturns the sum of elements of `list` from `start` to `end`.\n\n"),
    ("0xB7", "syntax: prod(list[,start,end])\nReturns product of `list` elements between `start` and `end`\n\n"),
    ("0xB8", "syntax: not(value)\nReturns `0` if `value` is ≠ 0. `value` can be a real number, expression, or list.\n\n"),
    ("0xB9", "syntax: iPart(value)\nReturns the integer part of a real or complex number, expression, list, or matrix.\n\n"),
    ("0xBA", "syntax: fPart(value)\nReturns the fractional part or parts of a real or complex number, expression, list, or matrix.\n\n"),
    ("0xBB00", "syntax: npv(interest rate,CF0,CFList[,CFFreq])\nComputes the sum of the present values for cash inflows and outflows.\n\n"),
    ("0xBB01", "syntax: irr(CF0,CFList[,CFFreq])\nReturns the interest rate at which the net present value of the cash flow is equal to zero.\n\n"),
    ("0xBB02", "syntax: bal(npmt[,roundvalue])\nComputes the balance at `npmt `for an amortization schedule using stored values for `PV`, I%, and `PMT` and rounds the computation to `roundvalue.`\n\n"),
    ("0xBB03", "syntax: ΣPrn(pmt1,pmt2[,roundvalue])\nComputes the sum, rounded to `roundvalue`, of the principal amount between `pmt1` and `pmt2` for an amortization schedule.\n\n"),
    ("0xBB04", "syntax: ΣInt(pmt1,pmt2[,roundvalue])\nComputes the sum, rounded to `roundvalue`, of the interest amount between `pmt1` and `pmt2` for an amortization schedule.\n\n"),
    ("0xBB05", "syntax: ►Nom(effective rate,compounding periods)\nComputes the nominal interest rate.\n\n"),
    ("0xBB06", "syntax: ►Eff(nominal rate,compounding periods)\nComputes the effective interest rate.\n\n"),
    ("0xBB07", "syntax: dbd(date1,date2)\nCalculates the number of days between `date1` and `date2` using the actual-day-count method.\n\n"),
    ("0xBB08", "syntax: lcm(valueA,valueB)\nReturns the least common multiple of `valueA` and `valueB`, which can be real numbers or lists.\n\n"),
    ("0xBB09", "syntax: gcd(valueA,valueB)\nReturns the greatest common divisor of `valueA` and `valueB`, which can be real numbers or lists.\n\n"),
    ("0xBB0A", "syntax: randInt( lower,upper [,numtrials])\nGenerates and displays a random integer within a range specified by `lower` and `upper` integer bounds for a specified number of trials `numtrials`.\n\n"),
    ("0xBB0B", "syntax: randBin(numtrials,prob[,numsimulations])\nGenerates and displays a random real number from a specified Binomial distribution.\n\n"),
    ("0xBB0C", "syntax: sub(string,begin,length)\nReturns a string that is a subset of another `string`, from `begin` to `length`.\nDivides a real number, expression, or list by 100.\n\n"),
    ("0xBB0D", "syntax: stdDev(list[,freqlist])\nReturns the standard deviation of the elements in `list` with frequency `freqlist`.\n\n"),
    ("0xBB0E", "syntax: variance(list[,freqlist])\nReturns the variance of the elements in `list` with frequency `freqlist`.\n\n"),
    ("0xBB0F", "syntax: inString(string,substring[,start])\nReturns the character position in `string` of the first character of `substring `beginning at `start`.\n\n"),
    ("0xBB10", "syntax: normalcdf(lowerbound,upperbound[,μ,σ])\nComputes the normal distribution probability between `lowerbound` and `upperbound` for the specified μ and σ.\n\n"),
    ("0xBB11", "syntax: invNorm(area[,µ,σ,tail])\nComputes the inverse cumulative normal distribution function for a given area under the normal distribution curve specified by μ and s.. The optional argument tail can be LEFT (-∞,-a), CENTER [-a,a] or RIGHT (a, ∞) for Real a.\nThe tokens LEFT, CENTER and RIGHT can be found in [catalog].\n\n"),
    ("0xBB12", "syntax: tcdf(lowerbound,upperbound,df)\nComputes the Student-`t` distribution probability between `lowerbound` and` upperbound` for the specified degrees of freedom` df`.\n\n"),
    ("0xBB13", "syntax: χ²cdf(lowerbound,upperbound,df)\nComputes the χ²distribution probability between `lowerbound` and` upperbound` for the specified degrees of freedom `df`.\n\n"),
    ("0xBB14", "syntax: 𝐅cdf(lowerbound,upperbound,numerator df,denominator df)\nComputes the 𝐅 distribution probability between `lowerbound `and `upperbound` for the specified `numerator df` (degrees of freedom) and `denominator df`.\n\n"),
    ("0xBB15", "syntax: binompdf(numtrials,p[,x])\nComputes a probability at `x` for the discrete binomial distribution with the specified `numtrials` and probability `p` of success on each trial.\n\n"),
    ("0xBB16", "syntax: binomcdf(numtrials,p[,x])\nComputes a cumulative probability at `x` for the discrete binomial distribution with the specified `numtrials` and probability `p` of success on each trial.\n\n"),
    ("0xBB17", "syntax: poissonpdf(μ,x)\nComputes a probability at `x` for the discrete Poisson distribution with the specified mean μ.\n\n"),
    ("0xBB18", "syntax: poissoncdf(μ,x)\nComputes a cumulative probability at `x` for the discrete Poisson distribution with specified mean μ.\n\n"),
    ("0xBB19", "syntax: geometpdf(p,x)\nComputes a probability at `x`, the number of the trial on which the first success occurs, for the discrete geometric distribution with the specified probability of success `p.`\n\n"),
    ("0xBB1A", "syntax: geometcdf(p,x)\nComputes a cumulative probability at `x`, the number of the trial on which the first success occurs, for the discrete geometric distribution with the specified probability of success `p.`\n\n"),
    ("0xBB1B", "syntax: normalpdf(x[,μ,σ])\nComputes the probability density function for the normal distribution at a specified `x` value for the specified μ and σ.\n\n"),
    ("0xBB1C", "syntax: tpdf(x,df)\nComputes the probability density function (pdf) for the Student-`t` distribution at a specified `x` value with specified degrees of freedom `df`.\n\n"),
    ("0xBB1D", "syntax: χ²pdf(x,df)\nComputes the probability density function (pdf) for the χ² distribution at a specified `x` value for the specified degrees of freedom `df`.\n\n"),
    ("0xBB1E", "syntax: 𝐅pdf(x,numerator df,denominator df)\nComputes the 𝐅 distribution probability between `lowerbound `and `upperbound` for the specified `numerator df` (degrees of freedom) and `denominator df`.\n\n"),
    ("0xBB1F", "syntax: randNorm(μ,σ[,numtrials])\nGenerates and displays a random real number from a specified Normal distribution specified by μ and σ for a specified number of trials `numtrials`.\n\n"),
    ("0xBB20", "syntax: tvm_Pmt[(𝗡,I%,PV,FV,P/Y,C/Y)]\nComputes the amount of each payment.\n\n"),
    ("0xBB21", "syntax: tvm_I%[(𝗡,PV,PMT,FV,P/Y,C/Y)]\nComputes the annual interest rate.\n\n"),
    ("0xBB22", "syntax: tvm_PV[(𝗡,I%,PMT,FV,P/Y,C/Y)]\nComputes the present value.\n\n"),
    ("0xBB23", "syntax: tvm_𝗡[(I%,PV,PMT,FV,P/Y,C/Y)]\nComputes the number of payment periods.\n\n"),
    ("0xBB24", "syntax: tvm_FV[(𝗡,I%,PV,PMT,P/Y,C/Y)]\nComputes the future value.\n\n"),
    ("0xBB25", "syntax: conj(value)\nReturns the complex conjugate of a complex number or list of complex numbers.\n\n"),
    ("0xBB26", "syntax: real(value)\nReturns the real part of a complex number or list of complex numbers.\n\n"),
    ("0xBB27", "syntax: imag(value)\nReturns the imaginary (non-real) part of a complex number or list of complex numbers.\n\n"),
    ("0xBB28", "syntax: angle(value)\nReturns the polar angle of a complex number or list of complex numbers.\n\n"),
    ("0xBB29", "syntax: cumSum(list)\nReturns a list of the cumulative sums of the elements in `list`, starting with the first element.\n\nsyntax: cumSum(matrix)\nReturns a matrix of the cumulative sums of `matrix` elements. Each element in the returned matrix is a cumulative sum of a `matrix` column from top to bottom.\n\n"),
    ("0xBB2A", "syntax: expr(string)\nConverts the character string contained in `string` to an expression and executes the expression. `string` can be a string or a string variable.\n\n"),
    ("0xBB2B", "syntax: length(string)\nReturns the number of characters in `string`.\n\n"),
    ("0xBB2C", "syntax: ΔList(list)\nReturns a list containing the differences between consecutive elements in `list`.\n\n"),
    ("0xBB2D", "syntax: ref(matrix)\nReturns the row-echelon form of a `matrix`.\n\n"),
    ("0xBB2E", "syntax: rref(matrix)\nReturns the reduced row-echelon form of a `matrix`.\n\n"),
    ("0xBB2F", "syntax: complex value ►Rect\nDisplays `complex value` or list in rectangular format.\n\n"),
    ("0xBB30", "syntax: complex value ►Polar\nDisplays `complex value` in polar format.\n\n"),
    ("0xBB31", "syntax: e\nA constant holding the approximate value of Euler's number.\n\n"),
    ("0xBB32", "syntax: SinReg [iterations,Xlistname,Ylistname,period,regequ]\nAttempts `iterations` times to fit a sinusoidal regression model to `Xlistname` and `Ylistname` using a `period` guess, and stores the regression equation to `regequ`.\n\n"),
    ("0xBB33", "syntax: Logistic [Xlistname,Ylistname,freqlist,regequ]\nFits a logistic regression model to` Xlistname `and `Ylistname` with frequency `freqlist`, and stores the regression equation to `regequ`.\n\n"),
    ("0xBB34", "syntax: LinRegTTest [Xlistname,Ylistname,freqlist,alternative,regequ]\nPerforms a linear regression and a `t`-test. `alternative`=-`1` is <; `alternative`=`0` is ≠; `alternative`=`1` is >.\n\n"),
    ("0xBB35", "syntax: ShadeNorm(lowerbound,upperbound[,μ,σ,color#])\nDraws the normal density function specified by μ and σ and shades and colors the area between `lowerbound` and `upperbound`.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\n"),
    ("0xBB36", "syntax: Shade_t(lowerbound,upperbound,df[,color#])\nDraws the density function for the Student-t distribution specified by degrees of freedom df, and shades or colors the area between `lowerbound` and `upperbound`.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\n"),
    ("0xBB37", "syntax: Shadeχ²(lowerbound,upperbound,df[,color#])\nDraws the density function for the χ² distribution specified by degrees of freedom `df`, and shades and colors the area between `lowerbound` and `upperbound`.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\n"),
    ("0xBB38", "syntax: Shade𝐅(lowerbound,upperbound,numerator df,denominator df[,color#])\nDraws the density function for the 𝐅` `distribution specified by `numerator df` and `denominator df` and shades and colors the area between `lowerbound` and `upperbound`.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\n"),
    ("0xBB39", "syntax: Matr►list(matrix,listnameA,...,listname n)\nFills each `listname` with elements from each column in `matrix`.\n\nsyntax: Matr►list(matrix,column#,listname)\nFills a `listname` with elements from a specified `column#` in `matrix`.\n\n"),
    ("0xBB3A", "syntax: List►matr(listname1,...,listname n,matrixname)\nFills `matrixname` column by column with the elements from each specified `listname`.\n\n"),
    ("0xBB3B", "syntax: Z-Test(μ0,σ[,listname,freqlist,alternative,drawflag,color#])\nPerforms a `z` test with frequency `freqlist`. `alternative`= -`1` is `<`; `alternative`=`0` is ≠; `alternative`=`1` is `>`. `drawflag`=`1` draws results; `drawflag`=`0` calculates results.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\nsyntax: Z-Test(μ0,σ,x̄,n[,alternative,drawflag,color#])\nPerforms a `z` test. `alternative`=-`1` is `<`; `alternative`=`0` is ≠; `alternative`=`1` is `>`. `drawflag`=`1` draws results; `drawflag`=`0` calculates results.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\n"),
    ("0xBB3C", "syntax: T-Test μ0[,listname,freqlist,alternative,drawflag,color#]) \nPerforms a `t` test with frequency `freqlist`. `alternative`=-`1` is `<`; `alternative`=`0` is ≠; `alternative`=`1` is `>`. `drawflag`=`1` draws results; `drawflag`=`0` calculates results.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\nsyntax: T-Test μ0,x̄,Sx,n[,alternative,drawflag,color#])\nPerforms a `t` test with frequency `freqlist`. `alternative`=-`1` is < ; `alternative`=`0` is Ä; `alternative`=`1` is >. `drawflag`=`1` draws results; `drawflag`=`0` calculates results.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\n"),
    ("0xBB3D", "syntax: 2-SampZTest( σ1,σ2[,listname1,listname2,freqlist1,freqlist2,alternative,drawflag,color#])\nComputes a two-sample `z` test. `alternative`=-`1` is `<`; `alternative`=`0` is ≠; `alternative`=`1` is `>`. `drawflag`=`1` draws results; `drawflag`=`0` calculates results.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\nsyntax: 2-SampZTest(σ1,σ2,x̄1,n1,x̄2,n2[,alternative,drawflag,color#])\nComputes a two-sample `z` test. `alternative`=-`1` is `<`; `alternative`=`0` is ≠; `alternative`=`1` is `>`. `drawflag`=`1` draws results; `drawflag`=`0` calculates results.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\n"),
    ("0xBB3E", "syntax: 1-PropZTest(p0,x,n[,alternative,drawflag, color#])\nComputes a one-proportion `z` test. `alternative`=-`1` is <; `alternative`=`0` is ≠; `alternative`=`1` is >. `drawflag`=`1` draws results; `drawflag`=`0` calculates results.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\n"),
    ("0xBB3F", "syntax: 2-PropZTest(x1,n1,x2,n2[,alternative,drawflag, color#])\nComputes a two-proportion `z` test. `alternative`=-`1` is <; `alternative`=`0` is ≠; `alternative`=`1` is >. `drawflag`=`1` draws results; `drawflag`=`0` calculates results.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\n"),
    ("0xBB40", "syntax: χ²-Test(observedmatrix,expectedmatrix[,drawflag,color#])\nPerforms a chi-square test. `drawflag`=`1` draws results; `drawflag`=`0` calculates results.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\n"),
    ("0xBB41", "syntax: ZIntervalσ[,listname,freqlist,confidence level]\nComputes a `z` confidence interval.\n\nsyntax: ZIntervalσ,x̄,n[,confidence level]\nComputes a `z` confidence interval.\n\n"),
    ("0xBB42", "syntax: 2-SampZInt(σ1,σ2[,listname1,listname2,freqlist1,freqlist2,confidence level])\nComputes a two-sample `z` confidence interval.\n\nsyntax: 2-SampZInt(σ1,σ2,x̄1,n1,x̄2,n2[,confidence level])\nComputes a two-sample `z` confidence interval.\n\n"),
    ("0xBB43", "syntax: 1-PropZInt(x,n[,confidence level])\nComputes a one-proportion `z` confidence interval.\n\n"),
    ("0xBB44", "syntax: 2-PropZInt(x1,n1,x2,n2[,confidence level])\nComputes a two-proportion `z` confidence interval.\n\n"),
    ("0xBB45", "syntax: GraphStyle(function#,graphstyle#)\nSets a `graphstyle` for `function#`.\n\n"),
    ("0xBB46", "syntax: 2-SampTTest [listname1,listname2,freqlist1,freqlist2,alternative,pooled,drawflag,color#])\nComputes a two-sample `t` test. `alternative`=-`1` is `<`; `alternative`=`0` is ≠; `alternative`=`1` is `>`. `pooled`=`1` pools variances; `pooled`=`0` does not pool variances. `drawflag`=`1` draws results; `drawflag`=`0` calculates results.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\nsyntax: 2-SampTTestx̄1,Sx1,n1,v2,Sx2,n2[,alternative,pooled,drawflag,color#])\nComputes a two-sample `t` test. `alternative`=-`1` is `<`; `alternative`=`0` is ≠; `alternative`=`1` is `>`. `pooled`=`1` pools variances; `pooled`=`0` does not pool variances. `drawflag`=`1` draws results; `drawflag`=`0` calculates results.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\n"),
    ("0xBB47", "syntax: 2-Samp𝐅Test[listname1,listname2,freqlist1,freqlist2,alternative,drawflag,color#]\nPerforms a two-sample 𝐅 test. `alternative`=-`1` is `<`; `alternative`=`0` is ≠; `alternative`=`1` is `>`. `drawflag`=`1` draws results; `drawflag`=`0` calculates results.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\nsyntax: 2-Samp𝐅TestSx1,n1,Sx2,n2[,alternative,drawflag,color#]\nPerforms a two-sample 𝐅 test. `alternative`=-`1` is `<`; `alternative`=`0` is ≠; `alternative`=`1` is `>`. `drawflag`=`1` draws results; `drawflag`=`0` calculates results.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\n"),
    ("0xBB48", "syntax: TInterval [listname,freqlist,confidence level]\nComputes a `t` confidence interval.\n\nsyntax: TInterval x̄,Sx,n[,confidence level]\nComputes a `t` confidence interval.\n\n"),
    ("0xBB49", "syntax: 2-SampTInt[listname1,listname2,freqlist1,freqlist2,confidence level,pooled]\nComputes a two-sample `t` confidence interval. `pooled`=`1` pools variances; `pooled`=`0` does not pool variances.\n\nsyntax: 2-SampTIntx̄1,Sx1,n1,x̄2,Sx2,n2[,confidence  level,pooled]\nComputes a two-sample `t` confidence interval. `pooled`=`1` pools variances; `pooled`=`0` does not pool variances.\n\n"),
    ("0xBB4A", "syntax: SetUpEditor\nRemoves all list names from the stat list editor, and then restores list names `L1` through `L6` to columns `1` through `6`.\n\nsyntax: SetUpEditor listname1[,listname2,...,listname20]\nRemoves all list names from the stat list editor, then sets it up to display one or more `listnames` in the specified order, starting with column `1`.\n\n"),
    ("0xBB4B", "syntax: Pmt_End\nSpecifies an ordinary annuity, where payments occur at the end of each payment period.\n\n"),
    ("0xBB4C", "syntax: Pmt_Bgn\nSpecifies an annuity due, where payments occur at the beginning of each payment period.\n\n"),
    ("0xBB4D", "syntax: Real\nSets mode to display complex results only when you enter complex numbers.\n\n"),
    ("0xBB4E", "syntax: re^θi\nSets the mode to polar complex number mode (`re``^`θ`i`).\n\n"),
    ("0xBB4F", "syntax: a+bi\nSets the mode to rectangular complex number format (a+b`i`).\n\n"),
    ("0xBB50", "syntax: ExprOn\nTurns on the expression display during TRACE.\n\n"),
    ("0xBB51", "syntax: ExprOff\nTurns off the expression display during TRACE.\n\n"),
    ("0xBB52", "syntax: ClrAllLists\nSets to `0` the dimension of all lists in memory.\n\n"),
    ("0xBB53", "syntax: GetCalc(variable[,portflag])\nGets contents of `variable` on another TI-84 Plus CE and stores it to `variable` on the receiving TI-84 Plus CE. By default, the TI-84 Plus CE uses the USB port if it is connected. If the USB cable is not connected, it uses the I/O port.`portflag`=0 use USB port if connected;`portflag`=1 use USB port;`portflag`=2 use I/O port.(Ignored when program runs on the TI-84 Plus CE.)\n\n"),
    ("0xBB54", "syntax: DelVar variable\nDeletes from memory the contents of `variable`.\n\n"),
    ("0xBB55", "syntax: Equ►String(Y= var,Strn)\nConverts the contents of a `Y= var` to a string and stores it in `Str``n`\n\n"),
    ("0xBB56", "syntax: String►Equ(string,Y= var)\nConverts `string` into an equation and stores it in `Y= var`.\nstring can be a string or string variable.\nString►Equ( is the inverse of Equ►String(.\n\n"),
    ("0xBB57", "syntax: Clear Entries\nClears the contents of the Last Entry storage area.\n\n"),
    ("0xBB58", "syntax: Select(Xlistname,Ylistname)\nSelects one or more specific data points from a scatter plot or xyLine plot (only), and then store's the selected data points to two new lists, `Xlistname` and `Ylistname`.\n\n"),
    ("0xBB59", "syntax: ANOVA(list1,list2[,list3,...,list20])\nPerforms a one-way analysis of variance for comparing the means of two to 20 populations.\n\n"),
    ("0xBB5A", "syntax: Plot#(type,Xlist[,freqlist,color#])\nUsed as the \"type\" argument in the command.\nWhere # gives Plot1, Plot2 or Plot3.\n\n"),
    ("0xBB5B", "syntax: Plot#(type,Xlist[,freqlist,color#])\nUsed as the \"type\" argument in the command\nWhere # gives Plot1, Plot2 or Plot3.\n\n"),
    ("0xBB64", "syntax: G-T\nSets graph-table vertical split-screen mode.\n\n"),
    ("0xBB65", "syntax: ZoomFit\nRecalculates `Ymin` and `Ymax` to include the minimum and maximum `Y` values, between `Xmin` and `Xmax`, of the selected functions and replots the functions.\n\n"),
    ("0xBB66", "syntax: DiagnosticOn\nSets diagnostics-on mode; `r`, `r`², and `R`² are displayed as regression model results.\n\n"),
    ("0xBB67", "syntax: DiagnosticOff\nSets diagnostics-off mode; `r`, `r`², and `R`² are not displayed as regression model results.\n\n"),
    ("0xBB68", "syntax: Archive variables\nMoves the specified `variable` from RAM to the user data archive memory.\n\n"),
    ("0xBB69", "syntax: UnArchive variable\nMoves the specified variables from the user data archive memory to RAM.\nTo archive variables, use `Archive`.\n\n"),
    ("0xBB6A", "syntax: Asm(\nUsed for running an assembly program. \n\n"),
    ("0xBB6B", "syntax: AsmComp(\nUsed to compress an assembly program written using AsmPrgm into an \"assembled\" assembly program.\n\n"),
    ("0xBB6C", "syntax: AsmPrgm\nDenotes the start of an assembly program in hexadecimal form.\n\n"),
    ("0xBB6D", "syntax: [CompiledAsm83P]\nUsed to start an assembly program.\n\n"),
    ("0xBB6E", "syntax: Á\nThe letter Á.\n\n"),
    ("0xBB6F", "syntax: À\nThe letter À.\n\n"),
    ("0xBB70", "syntax: Â\nThe letter Â.\n\n"),
    ("0xBB71", "syntax: Ä\nThe letter Ä.\n\n"),
    ("0xBB72", "syntax: á\nThe letter á.\n\n"),
    ("0xBB73", "syntax: à\nThe letter à.\n\n"),
    ("0xBB74", "syntax: â\nThe letter â.\n\n"),
    ("0xBB75", "syntax: ä\nThe letter ä.\n\n"),
    ("0xBB76", "syntax: É\nThe letter É.\n\n"),
    ("0xBB77", "syntax: È\nThe letter È.\n\n"),
    ("0xBB78", "syntax: Ê\nThe letter Ê.\n\n"),
    ("0xBB79", "syntax: Ë\nThe letter Ë.\n\n"),
    ("0xBB7A", "syntax: é\nThe letter é.\n\n"),
    ("0xBB7B", "syntax: è\nThe letter è.\n\n"),
    ("0xBB7C", "syntax: ê\nThe letter ê.\n\n"),
    ("0xBB7D", "syntax: ë\nThe letter ë.\n\n"),
    ("0xBB7F", "syntax: Ì\nThe letter Ì.\n\n"),
    ("0xBB80", "syntax: Î\nThe letter Î.\n\n"),
    ("0xBB81", "syntax: Ï\nThe letter Ï.\n\n"),
    ("0xBB82", "syntax: í\nThe letter í.\n\n"),
    ("0xBB83", "syntax: ì\nThe letter ì.\n\n"),
    ("0xBB84", "syntax: î\nThe letter î.\n\n"),
    ("0xBB85", "syntax: ï\nThe letter ï.\n\n"),
    ("0xBB86", "syntax: Ó\nThe letter Ó.\n\n"),
    ("0xBB87", "syntax: Ò\nThe letter Ò.\n\n"),
    ("0xBB88", "syntax: Ô\nThe letter Ô.\n\n"),
    ("0xBB89", "syntax: Ö\nThe letter Ö.\n\n"),
    ("0xBB8A", "syntax: ó\nThe letter ó.\n\n"),
    ("0xBB8B", "syntax: ò\nThe letter ò.\n\n"),
    ("0xBB8C", "syntax: ô\nThe letter ô.\n\n"),
    ("0xBB8D", "syntax: ö\nThe letter ö.\n\n"),
    ("0xBB8E", "syntax: Ú\nThe letter Ú.\n\n"),
    ("0xBB8F", "syntax: Ù\nThe letter Ù.\n\n"),
    ("0xBB90", "syntax: Û\nThe letter Û.\n\n"),
    ("0xBB91", "syntax: Ü\nThe letter Ü.\n\n"),
    ("0xBB92", "syntax: ú\nThe letter ú.\n\n"),
    ("0xBB93", "syntax: ù\nThe letter ù.\n\n"),
    ("0xBB94", "syntax: û\nThe letter û.\n\n"),
    ("0xBB95", "syntax: ü\nThe letter ü.\n\n"),
    ("0xBB96", "syntax: Ç\nThe letter Ç.\n\n"),
    ("0xBB97", "syntax: ç\nThe letter ç.\n\n"),
    ("0xBB98", "syntax: Ñ\nThe letter Ñ.\n\n"),
    ("0xBB99", "syntax: ñ\nThe letter ñ.\n\n"),
    ("0xBB9A", "syntax: ´\nA character symbol.\n\n"),
    ("0xBB9B", "syntax: `\nA character symbol.\n\n"),
    ("0xBB9C", "syntax: ¨\nA character symbol.\n\n"),
    ("0xBB9D", "syntax: ¿\nA character symbol.\n\n"),
    ("0xBB9E", "syntax: ¡\nA character symbol.\n\n"),
    ("0xBB9F", "syntax: α\nThe letter α.\n\n"),
    ("0xBBA0", "syntax: β\nThe letter β.\n\n"),
    ("0xBBA1", "syntax: γ\nThe letter γ.\n\n"),
    ("0xBBA2", "syntax: Δ\nThe letter Δ.\n\n"),
    ("0xBBA3", "syntax: δ\nThe letter δ.\n\n"),
    ("0xBBA4", "syntax: ε\nThe letter ε.\n\n"),
    ("0xBBA5", "syntax: λ\nThe letter λ.\n\n"),
    ("0xBBA6", "syntax: μ\nThe letter μ.\n\n"),
    ("0xBBA7", "syntax: |π\nThe letter |π.\n\n"),
    ("0xBBA8", "syntax: ρ\nThe letter ρ.\n\n"),
    ("0xBBA9", "syntax: Σ\nThe letter Σ.\n\n"),
    ("0xBBAB", "syntax: Φ\nThe letter Φ.\n\n"),
    ("0xBBAC", "syntax: Ω\nThe letter Ω.\n\n"),
    ("0xBBAD", "syntax: ṗ\nThe letter ṗ.\n\n"),
    ("0xBBAE", "syntax: χ\nThe letter χ.\n\n"),
    ("0xBBAF", "syntax: 𝐅\nUsed to denote sets.\n\n"),
    ("0xBBB0", "syntax: a\nThe letter a.\n\n"),
    ("0xBBB1", "syntax: b\nThe letter b.\n\n"),
    ("0xBBB2", "syntax: c\nThe letter c.\n\n"),
    ("0xBBB3", "syntax: d\nThe letter d.\n\n"),
    ("0xBBB4", "syntax: e\nReturns decimal approximation of the constant `e`.\n\n"),
    ("0xBBB5", "syntax: f\nThe letter f.\n\n"),
    ("0xBBB6", "syntax: g\nThe letter g.\n\n"),
    ("0xBBB7", "syntax: h\nThe letter h.\n\n"),
    ("0xBBB8", "syntax: i\nThe letter i.\n\n"),
    ("0xBBB9", "syntax: j\nThe letter j.\n\n"),
    ("0xBBBA", "syntax: k\nThe letter k.\n\n"),
    ("0xBBBC", "syntax: l\nThe letter l.\n\n"),
    ("0xBBBD", "syntax: m\nThe letter m.\n\n"),
    ("0xBBBE", "syntax: n\nThe letter n.\n\n"),
    ("0xBBBF", "syntax: o\nThe letter o.\n\n"),
    ("0xBBC0", "syntax: p\nThe letter p.\n\n"),
    ("0xBBC1", "syntax: q\nThe letter q.\n\n"),
    ("0xBBC2", "syntax: r\nThe letter r.\n\n"),
    ("0xBBC3", "syntax: s\nThe letter s.\n\n"),
    ("0xBBC4", "syntax: t\nThe letter t.\n\n"),
    ("0xBBC5", "syntax: u\nThe letter u.\n\n"),
    ("0xBBC6", "syntax: v\nThe letter v.\n\n"),
    ("0xBBC7", "syntax: w\nThe letter w.\n\n"),
    ("0xBBC8", "syntax: x\nThe letter x.\n\n"),
    ("0xBBC9", "syntax: y\nThe letter y.\n\n"),
    ("0xBBCA", "syntax: z\nThe letter z.\n\n"),
    ("0xBBCB", "syntax: σ\nUsed to denote standard deviation.\n\n"),
    ("0xBBCC", "syntax: τ\nUsed to denote a constant in differential equations or specific types of transformations.\n\n"),
    ("0xBBCD", "syntax: Í\nThe letter Í.\n\n"),
    ("0xBBCE", "syntax: GarbageCollect\nDisplays the garbage collection menu to allow cleanup of unused archive memory.\n\n"),
    ("0xBBCF", "syntax: ~\nA character symbol.\n\n"),
    ("0xBBD0", "syntax: '\nA character symbol.\n\n"),
    ("0xBBD1", "syntax: @\nA character symbol.\n\n"),
    ("0xBBD2", "syntax: #\nA character symbol.\n\n"),
    ("0xBBD3", "syntax: $\nA character symbol.\n\n"),
    ("0xBBD4", "syntax: &\nA character symbol.\n\n"),
    ("0xBBD5", "syntax: ‛\nA character symbol.\n\n"),
    ("0xBBD6", "syntax: ;\nA character symbol.\n\n"),
    ("0xBBD7", "syntax: \\\nA character symbol.\n\n"),
    ("0xBBD8", "syntax: |\nA character symbol.\n\n"),
    ("0xBBD9", "syntax: _\nA character symbol.\n\n"),
    ("0xBBDA", "syntax: %\nConverts numbers to percents.\n\n"),
    ("0xBBDB", "syntax: …\nA character symbol.\n\n"),
    ("0xBBDC", "syntax: ∠\nUsed to denote an angle.\n\n"),
    ("0xBBDD", "syntax: ß\nThe letter ß.\n\n"),
    ("0xBBDE", "syntax: ˣ\nUsed in phonetic notation to indicate a superscript \"3\" and can also be used in various specialized notations.\n\n"),
    ("0xBBDF", "syntax: ᴛ\nUsed to represent variables, constants, or specific symbols.\n\n"),
    ("0xBBE0", "syntax: ₀\nDenotes a 0 in subscript form.\n\n"),
    ("0xBBE1", "syntax: ₁\nDenotes a 1 in subscript form.\n\n"),
    ("0xBBE2", "syntax: ₂\nDenotes a 2 in subscript form.\n\n"),
    ("0xBBE3", "syntax: ₃\nDenotes a 3 in subscript form.\n\n"),
    ("0xBBE4", "syntax: ₄\nDenotes a 4 in subscript form.\n\n"),
    ("0xBBE5", "syntax: ₅\nDenotes a 5 in subscript form.\n\n"),
    ("0xBBE6", "syntax: ₆\nDenotes a 6 in subscript form.\n\n"),
    ("0xBBE7", "syntax: ₇\nDenotes a 7 in subscript form.\n\n"),
    ("0xBBE8", "syntax: ₈\nDenotes a 8 in subscript form.\n\n"),
    ("0xBBE9", "syntax: ₉\nDenotes a 9 in subscript form.\n\n"),
    ("0xBBEA", "syntax: ₁₀\nDenotes a 10 in subscript form.\n\n"),
    ("0xBBEB", "syntax: ◄\nBlack left pointing triangle.\n\n"),
    ("0xBBEC", "syntax: ►\nBlack right pointing triangle.\n\n"),
    ("0xBBED", "syntax: ↑\nBlack up pointing triangle.\n\n"),
    ("0xBBEE", "syntax: ↓\nBlack down pointing triangle.\n\n"),
    ("0xBBF0", "syntax: ×\nX mark.\n\n"),
    ("0xBBF1", "syntax: ∫\nUsed to denote an integral.\n\n"),
    ("0xBBF2", "syntax: 🡅\nBold up arrow.\n\n"),
    ("0xBBF3", "syntax: 🡇\nBold down arrow.\n\n"),
    ("0xBBF4", "syntax: √\nSquare root.\n\n"),
    ("0xBBF5", "syntax: ⌸\nInverted equal sign.\n\n"),
    ("0xBC", "syntax: √(\nTakes the square root of a positive or negative number. If used on a list, it will return a list with the square root of each element.\n\n"),
    ("0xBD", "syntax: ³√(\nTakes the cube root of a positive or negative number. If used on a list, it will return a list with the cube root of each element.\n\n"),
    ("0xBE", "syntax: ln(value)\nReturns the natural logarithm of a real or complex number, expression, or list.\n\n"),
    ("0xBF", "syntax: e^(power)\nReturns `e` raised to `power`.\n\nsyntax: e^(list)\nReturns a list of `e` raised to a `list` of powers.\n\n"),
    ("0xC0", "syntax: log(value)\nReturns logarithm of a real or complex number, expression, or list.\n\n"),
    ("0xC1", "syntax: ₁₀^(\nRaises 10 to a power.\n\n"),
    ("0xC2", "syntax: sin(value)\nReturns the sine of a real number, expression, or list.\n\n"),
    ("0xC3", "syntax: sin⁻¹(value)\nReturns the arcsine of a real number, expression, or list.\n\n"),
    ("0xC4", "syntax: cos(value)\nReturns cosine of a real number, expression, or list.\n\n"),
    ("0xC5", "syntax: cos⁻¹(value)\nReturns arccosine of a real number, expression, or list.\n\n"),
    ("0xC6", "syntax: tan(value)\nReturns the tangent of a real number, expression, or list.\n\n"),
    ("0xC7", "syntax: tan⁻¹(value)\nReturns the arctangent of a real number, expression, or list.\n\n"),
    ("0xC8", "syntax: sinh(value)\nReturns the hyperbolic sine of a real number, expression, or list.\n\n"),
    ("0xC9", "syntax: sinh⁻¹ (value)\nReturns the hyperbolic arcsine of a real number, expression, or list.\n\n"),
    ("0xCA", "syntax: cosh(value)\nReturns hyperbolic cosine of a real number, expression, or list.\n\n"),
    ("0xCB", "syntax: cosh⁻¹ (value)\nReturns hyperbolic arccosine of a real number, expression, or list.\n\n"),
    ("0xCC", "syntax: tanh(value)\nReturns hyperbolic tangent of a real number, expression, or list.\n\n"),
    ("0xCD", "syntax: tanh⁻¹(value)\nReturns the hyperbolic arctangent of a real number, expression, or list.\n\n"),
    ("0xCE", "syntax: If condition:commandA:commands\nIf `condition` = 0 (false), skips `commandA`.\n\nsyntax: If:conditionThen:commandsEnd:commands\nExecutes `commands` from `Then` to `End` if `condition` = 1 (true).\n\nsyntax: If:conditionThen:commandsElse:commandsEnd:commands\nExecutes `commands` from `Then` to `Else` if `condition` = 1 (true); from `Else` to `End` if `condition` = 0 (false).\n\n"),
    ("0xCF", "syntax: ThenSee If:Then\nWhen you want more than one line of code to depend on the same condition, use an If-Then block.\n\n"),
    ("0xD0", "syntax: Else\n`See `If:Then:Else\n\n"),
    ("0xD1", "syntax: :Whilecondition:commands\n :End:command\nExecutes `commands` while `condition` is true.\n\n"),
    ("0xD2", "syntax: Repeatcondition:commands:End:commands\nExecutes `commands` until `condition` is true.\n\n"),
    ("0xD3", "syntax: :For(variable,begin,end[,increment]):commands:End:commands\nExecutes `commands` through `End`, incrementing `variable` from `begin` by `increment`  until `variable`>`end`.\n\n"),
    ("0xD4", "syntax: End\nIdentifies end of` For(`, `If`-`Then`-`Else`, `Repeat`, or `While` loop.\n\n"),
    ("0xD5", "syntax: Return\nReturns to the calling program.\n\n"),
    ("0xD6", "syntax: Lbl label\nCreates a `label` of one or two characters.\n\n"),
    ("0xD7", "syntax: Gotolabel\nTransfers control to `label`.\n\n"),
    ("0xD8", "syntax: Pause\nSuspends program execution until you press Í.\n\nsyntax: Pause [value]\nDisplays `value`; suspends program execution until you press Í.\n\nsyntax: Pause [value, time]\nDisplays value on the current home screen and execution of the program continues after the time period specified. For time only, use Pause `“”,time` where the value is a blank string. Time is in seconds.\nPause `value,time`.\n\n"),
    ("0xD9", "syntax: Stop\nEnds program execution; returns to home screen.\n\n"),
    ("0xDA", "syntax: :IS>(variable,value) :commandA:commands\nIncrements `variable` by 1; skips `commandA` if `variable`>`value`.\n\n"),
    ("0xDB", "syntax: DS<(variable,value):commandA:commands\nDecrements `variable` by 1; skips `commandA` if `variable `< `value`.\n\n"),
    ("0xDC", "syntax: Input\nDisplays graph.\n\nsyntax: Input [variable]\nPrompts for value to store to `variable`.\n\nsyntax: Input [Strn,variable]\nDisplays `Strn` and stores entered value to `variable`.\n\n"),
    ("0xDD", "syntax: Prompt variableA[,variableB,...,variable n]\nPrompts for value for `variableA`, then `variableB`, and so on.\n\n"),
    ("0xDE", "syntax: Disp\nDisplays the home screen.\n\nsyntax: Disp [valueA,valueB,valueC,...,value n]\nDisplays each value.\n\n"),
    ("0xDF", "syntax: DispGraph\nDisplays the graph.\n\n"),
    ("0xE0", "syntax: Output(row,column,\"text\")\nDisplays `text` beginning at specified `row` and `column `of the home screen.\n\nsyntax: Output(row,column,value)\nDisplays `value` beginning at specified `row` and `column `of the home screen.\n\n"),
    ("0xE1", "syntax: ClrHome\nClears the home screen.\n\n"),
    ("0xE2", "syntax: Fill(value,matrixname)\nStores `value` to each element in `matrixname`.\n\nsyntax: Fill(value,listname)\nStores `value` to each element in `listname`.\n\n"),
    ("0xE3", "syntax: SortA(listname)\nSorts elements of `listname` in ascending order.\n\nsyntax: SortA(keylistname,dependlist1[,dependlist2,...,dependlist n])\nSorts elements of `keylistname` in ascending order, then sorts each `dependlist` as a dependent list.\n\n"),
    ("0xE4", "syntax: SortD(listname)\nSorts elements of `listname` in descending order.\n\nsyntax: SortD(keylistname,dependlist1[,dependlist2,..., dependlist n])\nSorts elements of `keylistname` in descending order, then sorts each `dependlist` as a dependent list.\n\n"),
    ("0xE5", "syntax: DispTable\nDisplays the table.\n\n"),
    ("0xE6", "syntax: Menu(\"title\",\"text1\",label1[,...,\"text7\",label7])\nGenerates a menu of up to seven items during program execution.\n\n"),
    ("0xE7", "syntax: Send(string)\nSends one or more TI-Innovator™ Hub commands to a connected hub.\nNotes:\nSee also eval( and Get( command related to the Send( command.\nTI-Innovator™ Hub commands are supported in the HUB submenu in the CE OS v.5.2 program editor.\n\nsyntax: Send(string)\nSends one or more TI-Innovator™ Hub commands to a connected hub.\nNotes:\nSee also eval( and Get( command related to the Send( command.\nTI-Innovator™ Hub commands are supported in the HUB submenu in the CE OS v.5.2 program editor.\n\n"),
    ("0xE8", "syntax: Get(variable)\nRetrieves a value from a connected TI-Innovator™ Hub and stores the data to a variable on the receiving CE calculator.\nNote: See also Send( and eval(\n\nsyntax: Get(variable\nRetrieves a value from a connected TI-Innovator™ Hub and stores the data to a variable on the receiving CE calculator.\nNote: See also Send( and eval(\n\n"),
    ("0xE9", "syntax: PlotsOn [1,2,3]\nSelects all stat plots or one or more specified stat plots (`1`, `2`, or `3`).\n\n"),
    ("0xEA", "syntax: PlotsOff [1,2,3]\nDeselects all stat plots or one or more specified stat plots (`1`, `2`, or `3`).\n\n"),
    ("0xEB", "syntax: ʟlistname\nIdentifies the next one to five characters as a user-created list name.\n\n"),
    ("0xEC", "syntax: Plot#(type,Xlist,Ylist[,mark,color#])\nDefines `Plot#` (`1`, `2`, or `3`) of `type` `Scatter` or `xyLine` for `Xlist` and `Ylist` using `mark `and `color. `\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\nNote: `Xlist `and `Ylist `represent the Xlist and Ylist names.\n\nsyntax: Plot#(type,Xlist[,freqlist,color#])\nDefines `Plot#` (`1`, `2`, or `3`) of `type` ` Histogram` or `Boxplot` for `Xlist` with frequency `freqlist `and color #.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\nNote: `Xlist `represents the Xlist name.\n\nsyntax: Plot#(type,Xlist[,freqlist,mark,color#])\nDefines `Plot#` (`1`, `2`, or `3`) of `type` ` ModBoxplot` for `Xlist` with frequency `freqlist` using `mark `and `color #`.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\nNote: `Xlist `represents the Xlist name.\n\nsyntax: Plot#(type,datalist[,data axis,mark,color#])\nDefines `Plot#` (`1`, `2`, or `3`) of `type` ` NormProbPlot` for `datalist` on `data axis` using `mark `and `color #` `data axis` can be `X` or `Y`.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\nNote: `datalist `represents the datalist name.\n\n"),
    ("0xED", "syntax: Plot#(type,Xlist,Ylist[,mark,color#])\nDefines `Plot#` (`1`, `2`, or `3`) of `type` `Scatter` or `xyLine` for `Xlist` and `Ylist` using `mark `and `color. `\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\nNote: `Xlist `and `Ylist `represent the Xlist and Ylist names.\n\nsyntax: Plot#(type,Xlist[,freqlist,color#])\nDefines `Plot#` (`1`, `2`, or `3`) of `type` ` Histogram` or `Boxplot` for `Xlist` with frequency `freqlist `and color #.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\nNote: `Xlist `represents the Xlist name.\n\nsyntax: Plot#(type,Xlist[,freqlist,mark,color#])\nDefines `Plot#` (`1`, `2`, or `3`) of `type` ` ModBoxplot` for `Xlist` with frequency `freqlist` using `mark `and `color #`.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\nNote: `Xlist `represents the Xlist name.\n\nsyntax: Plot#(type,datalist[,data axis,mark,color#])\nDefines `Plot#` (`1`, `2`, or `3`) of `type` ` NormProbPlot` for `datalist` on `data axis` using `mark `and `color #` `data axis` can be `X` or `Y`.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\nNote: `datalist `represents the datalist name.\n\n"),
    ("0xEE", "syntax: Plot#(type,Xlist,Ylist[,mark,color#])\nDefines `Plot#` (`1`, `2`, or `3`) of `type` `Scatter` or `xyLine` for `Xlist` and `Ylist` using `mark `and `color. `\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\nNote: `Xlist `and `Ylist `represent the Xlist and Ylist names.\n\nsyntax: Plot#(type,Xlist[,freqlist,color#])\nDefines `Plot#` (`1`, `2`, or `3`) of `type` ` Histogram` or `Boxplot` for `Xlist` with frequency `freqlist `and color #.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\nNote: `Xlist `represents the Xlist name.\n\nsyntax: Plot#(type,Xlist[,freqlist,mark,color#])\nDefines `Plot#` (`1`, `2`, or `3`) of `type` ` ModBoxplot` for `Xlist` with frequency `freqlist` using `mark `and `color #`.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\nNote: `Xlist `represents the Xlist name.\n\nsyntax: Plot#(type,datalist[,data axis,mark,color#])\nDefines `Plot#` (`1`, `2`, or `3`) of `type` ` NormProbPlot` for `datalist` on `data axis` using `mark `and `color #` `data axis` can be `X` or `Y`.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\nNote: `datalist `represents the datalist name.\n\n"),
    ("0xEF00", "syntax: setDate(year,month,day)\nSets the date using a year, month, day format. The `year` must be 4 digits; `month` and `day` can be 1 or 2 digit.\n\n"),
    ("0xEF01", "syntax: setTime(hour,minute, second)\nSets the time using an hour, minute, second format. The `hour` must be in 24 hour format, in which 13 = 1 p.m.\n\n"),
    ("0xEF02", "syntax: checkTmr(starttime)\nReturns the number of seconds since you used `startTmr` to start the timer. The `starttime` is the value displayed by `startTmr`.\n\n"),
    ("0xEF03", "syntax: setDtFmt(integer)\nSets the date format.\n1 = M/D/Y2 = D/M/Y3 = Y/M/D\n\n"),
    ("0xEF04", "syntax: setTmFmt(integer)\nSets the time format.\n12 = 12 hour format24 = 24 hour format\n\n"),
    ("0xEF05", "syntax: timeCnv(seconds)\nConverts seconds to units of time that can be more easily understood for evaluation. The list is in {days,hours,minutes,seconds} format.\n\n"),
    ("0xEF06", "syntax: dayOfWk(year,month,day)\nReturns an integer from 1 to 7, with each integer representing a day of the week. Use `dayOfWk(` to determine on which day of the week a particular date would occur. The `year` must be 4 digits; `month` and `day` can be 1 or 2 digits.\n\n"),
    ("0xEF07", "syntax: getDtStr(integer)\nReturns a string of the current date in the format specified by `integer`, where:\n1 = M/D/Y2 = D/M/Y3 = Y/M/D\n\n"),
    ("0xEF08", "syntax: getTmStr(integer)\nReturns a string of the current clock time in the format specified by `integer`, where:\n12 = 12 hour format24 = 24 hour format\n\n"),
    ("0xEF09", "syntax: getDate\nReturns a list giving the date according to the current value of the clock. The list is in {year,month,day} format.\n\n"),
    ("0xEF0A", "syntax: getTime\nReturns a list giving the time according to the current value of the clock. The list is in {hour,minute,second} format. The time is returned in the 24 hour format.\n\n"),
    ("0xEF0B", "syntax: startTmr\nStarts the clock timer. Store or note the displayed value, and use it as the argument for `checkTmr( )` to check the elapsed time.\n\n"),
    ("0xEF0C", "syntax: getDtFmt\nReturns an integer representing the date format that is currently set on the device.\n1 = M/D/Y2 = D/M/Y3 = Y/M/D\n\n"),
    ("0xEF0D", "syntax: getTmFmt\nReturns an integer representing the clock time format that is currently set on the device.\n12 = 12 hour format24 = 24 hour format\n\n"),
    ("0xEF0E", "syntax: isClockOn\nIdentifies if clock is ON or OFF. Returns 1 if the clock is ON. Returns 0 if the clock is OFF.\n\n"),
    ("0xEF0F", "syntax: ClockOff\nTurns off the clock display in the mode screen.\n\n"),
    ("0xEF10", "syntax: ClockOn\nTurns on the clock display in the mode screen.\n\n"),
    ("0xEF11", "syntax: OpenLib(\nExtends TI-Basic. (Not available.)\n\n"),
    ("0xEF12", "syntax: ExecLib\nExtends TI-Basic (not available)\n\n"),
    ("0xEF13", "syntax: invT(area,df)\nComputes the inverse cumulative student-t probability function specified by degree of freedom, df for a given area under the curve.\n\n"),
    ("0xEF14", "syntax: χ²GOF-Test(observedlist,expectedlist,df [,drawflag,color#])\nPerforms a test to confirm that sample data is from a population that conforms to a specified distribution.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\n"),
    ("0xEF15", "syntax: LinRegTInt [Xlistname,Ylistname,freqlist,confidence level, regequ]\nPerforms a linear regression and computes the t confidence interval for the slope coefficient b.\n\n"),
    ("0xEF16", "syntax: Manual-Fit[equname,color#,line style#]\nFits a linear equation to a scatter plot with specified color and line style.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\nline style #: 1-4.\n\n"),
    ("0xEF17", "syntax: ZQuadrant1\nDisplays the portion of the graph that is in quadrant 1.\n\n"),
    ("0xEF18", "syntax: ZFrac1/2\nSets the window variables so that you can trace in increments of , if possible. Sets `TraceStep `to  and Δ`X` and Δ`Y `to .\n\n"),
    ("0xEF19", "syntax: ZFrac1/3\nSets the window variables so that you can trace in increments of , if possible. Sets `TraceStep `to  and Δ`X` and Δ`Y `to .\n\n"),
    ("0xEF1A", "syntax: ZFrac1/4\nSets the window variables so that you can trace in increments of , if possible. Sets `TraceStep `to  and Δ`X` and Δ`Y `to .\n\n"),
    ("0xEF1B", "syntax: ZFrac1/5\nSets the window variables so that you can trace in increments of , if possible. Sets `TraceStep `to  and Δ`X` and Δ`Y `to .\n\n"),
    ("0xEF1C", "syntax: ZFrac1/8\nSets the window variables so that you can trace in increments of , if possible. Sets `TraceStep `to  and Δ`X` and Δ`Y `to .\n\n"),
    ("0xEF1D", "syntax: ZFrac1/10\nSets the window variables so that you can trace in increments of , if possible. Sets `TraceStep `to  and Δ`X` and Δ`Y `to .\n\n"),
    ("0xEF1E", "syntax: ⬚\nBox placeholders to help you enter mathematical expressions.\n\n"),
    ("0xEF2E", "syntax: ⁄\nUsed to represent fractions in a linear format.\n\n"),
    ("0xEF2F", "syntax: ᵤ\nUsed in phonetic transcription or to represent a small subscript \"u\".\n\n"),
    ("0xEF30", "syntax: ►n/d ◄►Un/d\nConverts the results from a fraction to mixed number or from a mixed number to a fraction, if applicable.\n\n"),
    ("0xEF31", "syntax: ►F ◄►D\nConverts an answer from a fraction to a decimal or from a decimal to a fraction. Fraction and or decimal may be an approximation.\n\n"),
    ("0xEF32", "syntax: remainder(dividend, divisor)\nReports the remainder as a whole number from a division of two whole numbers where the divisor is not zero.\n\nsyntax: remainder(list, divisor)\nReports the remainder as a whole number from a division of two lists where the divisor is not zero.\n\nsyntax: remainder(dividend, list)\nReports the remainder as a whole number from a division of two whole numbers where the divisor is a list.\n\nsyntax: remainder(list, list)\nReports the remainder as a whole number from a division of two lists.\n\n"),
    ("0xEF33", "syntax: Σ(expression[,start,end])\nClassic command as shown.\nIn MathPrint™ the summation entry template displays and returns the sum of elements of `list`  from `start`  to `end, `where` start `<=` end`.\n\n"),
    ("0xEF34", "syntax: logBASE(value, base)\nReturns the logarithm of a specifed value determined from a specified base: logBASE(value, base).\n\n"),
    ("0xEF35", "syntax: randIntNoRep(lowerint,upperint [,numelements])\nReturns a random ordered list of integers from a lower integer to an upper integer which may include the lower integer and upper integer. If the optional argument `numelements` is specified, the first `numelements` are listed. The first `numelements` term in the list of random integers are displayed.\n\n"),
    ("0xEF36", "syntax: CLASSIC\nCLASSIC will put the calculator into Classic mode as opposed to MathPrint mode. The Classic mode will make the calculator display everything as pre-MathPrint OS would, including input. For instance, rather than superscripting exponents as MathPrint mode would, Classic mode uses the simple caret syntax (^).\n\n"),
    ("0xEF37", "syntax: MATHPRINT\nDisplays most entries and answers the way they are displayed in textbooks, such as .\n\n"),
    ("0xEF38", "syntax: CLASSIC\nDisplays inputs and outputs on a single line, such as 1/2+3/4.\n\n"),
    ("0xEF39", "syntax: n/d\nDisplays results as a simple fraction.\n\n"),
    ("0xEF3A", "syntax: Un/d\nDisplays results as a mixed number, if applicable.\n\n"),
    ("0xEF3B", "syntax: AUTO\nDisplays answers in a similar format as the input.\n\n"),
    ("0xEF3C", "syntax: DEC\nDisplays answers as integers or decimal numbers.\n\n"),
    ("0xEF3D", "syntax: FRAC-APPROX\nTI-84+ token.\n\n"),
    ("0xEF3F", "syntax: STATWIZARD ON\nEnables wizard syntax help for statistical commands, distributions, and seq(.\n\n"),
    ("0xEF40", "syntax: STATWIZARD OFF\nDisables wizard syntax help for statistical commands, distributions, and seq(.\n\n"),
    ("0xEF41", "syntax: BLUE\nColor Variable\n\n"),
    ("0xEF42", "syntax: RED\nColor Variable\n\n"),
    ("0xEF43", "syntax: BLACK\nColor Variable\n\n"),
    ("0xEF44", "syntax: MAGENTA\nColor Variable\n\n"),
    ("0xEF45", "syntax: GREEN\nColor Variable\n\n"),
    ("0xEF46", "syntax: ORANGE\nColor Variable\n\n"),
    ("0xEF47", "syntax: BROWN\nColor Variable\n\n"),
    ("0xEF48", "syntax: NAVY\nColor Variable\n\n"),
    ("0xEF49", "syntax: LTBLUE\nColor Variable\n\n"),
    ("0xEF4A", "syntax: YELLOW\nColor Variable\n\n"),
    ("0xEF4B", "syntax: WHITE\nColor Variable\n\n"),
    ("0xEF4C", "syntax: LTGRAY\nColor Variable\n\n"),
    ("0xEF4D", "syntax: MEDGRAY\nColor Variable\n\n"),
    ("0xEF4E", "syntax: GRAY\nColor Variable\n\n"),
    ("0xEF4F", "syntax: DARKGRAY\nColor Variable\n\n"),
    ("0xEF50", "syntax: Image1\nImage Variable\n\n"),
    ("0xEF51", "syntax: Image2\nImage Variable\n\n"),
    ("0xEF52", "syntax: Image3\nImage Variable\n\n"),
    ("0xEF53", "syntax: Image4\nImage Variable\n\n"),
    ("0xEF54", "syntax: Image5\nImage Variable\n\n"),
    ("0xEF55", "syntax: Image6\nImage Variable\n\n"),
    ("0xEF56", "syntax: Image7\nImage Variable\n\n"),
    ("0xEF57", "syntax: Image8\nImage Variable\n\n"),
    ("0xEF58", "syntax: Image9\nImage Variable\n\n"),
    ("0xEF59", "syntax: Image0\nImage Variable\n\n"),
    ("0xEF5A", "syntax: GridLine [color#]\nTurns on grid lines in the graph area in the specified color.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\n"),
    ("0xEF5B", "syntax: BackgroundOn n\nDisplays a menu the Background Image Var n (Image#n) specified in the graph area.\n\n"),
    ("0xEF64", "syntax: BackgroundOff\nTurns off background image in the graph area.\n\n"),
    ("0xEF65", "syntax: GraphColor(function#,color#)\nSets the color for `function#`.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\n"),
    ("0xEF66", "syntax: QuickPlot&Fit-EQ\nTI-84+ token.\n\n"),
    ("0xEF67", "syntax: TextColor([color#]\nSet text color prior to using the `Text( `command.\nColor#: 10 - 24 or color name pasted from [vars] COLOR.\n\n"),
    ("0xEF68", "syntax: Asm84CPrgm\nDenotes the start of an assembly program in hexadecimal form. Only avalible on TI-84+CSE.\n\n"),
    ("0xEF69", "syntax: [CompiledAsm84C]\nTI-84+ token.\n\n"),
    ("0xEF6A", "syntax: DetectAsymOn\nTurns on checks for rational function asymptotes when graphing. Impacts graph speed. Performs more calculations and will not connect pixels across an asymptote on a graph.\n\n"),
    ("0xEF6B", "syntax: DetectAsymOff\nTurns off checks for rational function asymptotes when graphing. Impacts graph speed. Does not perform extra calculations to detect asymptotes pixel to pixel while graphing.  Pixels will connect across the screen even across an asymptote.\n\n"),
    ("0xEF6C", "syntax: BorderColor[color#]\nTurns on a border color surrounding the graph area with the specified color. Color #:1-4.\n\n"),
    ("0xEF73", "syntax: ·\ntiny dot plot\n\n"),
    ("0xEF74", "syntax: Thin\nResets all Y=editor line-style settings to Thin.\n\n"),
    ("0xEF75", "syntax: Dot-Thin\nSets dot plotting mode; resets all Y=editor graph-style settings to Dot-Thin.\n\n"),
    ("0xEF7A", "syntax: Asm84CEPrgm\nDenotes the start of an assembly program in hexadecimal form. Only avalible on TI-84+CSE.\n\n"),
    ("0xEF7B", "syntax: [CompiledAsmCE]\nTI-84+ token.\n\n"),
    ("0xEF81", "syntax: Quartiles Setting…\nTI-84+ token.\n\n"),
    ("0xEF82", "syntax: u(𝑛-2)\nTI-84+ token.\n\n"),
    ("0xEF83", "syntax: v(𝑛-2)\nTI-84+ token.\n\n"),
    ("0xEF84", "syntax: w(𝑛-2)\nTI-84+ token.\n\n"),
    ("0xEF85", "syntax: u(𝑛-1)\nTI-84+ token.\n\n"),
    ("0xEF86", "syntax: v(𝑛-1)\nTI-84+ token.\n\n"),
    ("0xEF87", "syntax: w(𝑛-1)\nTI-84+ token.\n\n"),
    ("0xEF88", "syntax: u(𝑛)\nTI-84+ token.\n\n"),
    ("0xEF89", "syntax: v(𝑛)\nTI-84+ token.\n\n"),
    ("0xEF8A", "syntax: w(𝑛)\nTI-84+ token.\n\n"),
    ("0xEF8B", "syntax: u(𝑛+1)\nTI-84+ token.\n\n"),
    ("0xEF8C", "syntax: v(𝑛+1)\nTI-84+ token.\n\n"),
    ("0xEF8D", "syntax: w(𝑛+1)\nTI-84+ token.\n\n"),
    ("0xEF8F", "syntax: Seq(n)\nIn sequence mode, SEQ(`n`) sets the sequence editor type to enter sequence functions, u, v, or w, as a function of the independent variable `n`.   Can also be set from the Y= editor in SEQ mode.\n\n"),
    ("0xEF90", "syntax: Seq(n+1)\nIn sequence mode, SEQ(`n+1`) sets the sequence editor type to enter sequence functions, u, v, or w, as a function of the independent variable `n+1`.   Can also be set from the Y= editor in SEQ mode.\n\n"),
    ("0xEF91", "syntax: Seq(n+2)\nIn sequence mode, SEQ(`n+2`) sets the sequence editor type to enter sequence functions, u, v, or w, as a function of the independent variable `n+2`.   Can also be set from the Y= editor in SEQ mode.\n\n"),
    ("0xEF92", "syntax: LEFT\nLEFT is a tail argument for the invNorm( command where the optional argument tail can be LEFT (-∞,-a), CENTER [-a,a] or RIGHT (a, ∞) for Real a.\nSee also invNorm(.\n\n"),
    ("0xEF93", "syntax: CENTER\nCENTER is a tail argument for the invNorm( command where the optional argument tail can be LEFT (-∞,-a), CENTER [-a,a] or RIGHT (a, ∞) for Real a.\nSee also invNorm(.\n\n"),
    ("0xEF94", "syntax: RIGHT\nRIGHT is a tail argument for the invNorm( command where the optional argument tail can be LEFT (-∞,-a), CENTER [-a,a] or RIGHT (a, ∞) for Real a.\nSee also invNorm(.\n\n"),
    ("0xEF95", "syntax: invBinom(area,trial,p)\nThe inverse binomial cumulative distribution function results in the minimum number of successes, such that the cumulative probability for that minimum number of successes ≥ the given cumulative probability (area).  If more information is needed, also find the binomcdf for the result from invBinom( as shown below for a full analysis.\nDetails:\nAssume the toss of a fair coin 30 times.  What is the minimum number of heads you must observe such that the cumulative probability for that number of observed heads is at least 0.95?\nThe results on the screen first show that the minimum number of successes to obtain at least the given cumulative probability of 0.95 is 19.  Next, the cumulative probability for up to 19 is computed using binomcdf( and is approximately 0.9506314271 which meets the criteria of  0.9506314271≥0.95\n\nAlternate Method:\nSet Y1=binomcdf(30,0.5,X) and use the table of values (starting at 0 and increment by 1) to find when the cumulative probability is at or just above the given cumulative probability.  This gives you a view of all values to make decisions.  For this example, search in the table to find the cumulative probability just larger than 0.95.  Again, the number of successes is 19.\n\n\n"),
    ("0xEF96", "syntax: Waittime\nSuspends execution of a program for a given time.  Maximum time is 100 seconds.\n\nsyntax: Waittime\nSuspends execution of a program for a given time.  Maximum time is 100 seconds.\n\n"),
    ("0xEF97", "syntax: toString((value[,format])\nConverts value to a string where `value` can be real, complex, an evaluated expression, list, or matrix.  String `value` displays in classic `format` (0) following the mode setting AUTO/DEC or in decimal `format` (1).\n\n"),
    ("0xEF98", "syntax: eval(expression)\nReturns an evaluated expression as a string with 8 significant digits.  The expression must be real.\n\nsyntax: eval(expression)\nReturns an evaluated expression as a string with 8 significant digits.  The expression must simplify to a real expression.\n\n"),
    ("0xEF9E", "syntax: Execute Program\nUsed in program editing menu.\n\n"),
    ("0xEF9F", "syntax: Undo Clear\nUsed in program editing menu.\n\n"),
    ("0xEFA0", "syntax: Insert Line Above\nUsed in program editing menu.\n\n"),
    ("0xEFA1", "syntax: Cut Line\nUsed in program editing menu.\n\n"),
    ("0xEFA2", "syntax: Copy Line\nUsed in program editing menu.\n\n"),
    ("0xEFA3", "syntax: Paste Line Below\nUsed in program editing menu.\n\n"),
    ("0xEFA4", "syntax: Insert Comment Above\nUsed in program editing menu.\n\n"),
    ("0xEFA5", "syntax: Quit Editor\nUsed in program editing menu.\n\n"),
    ("0xEFA6", "syntax: piecewise(\nNew piecewise function to support entry of functions as they are seen in textbook. This command can be found in » MATH `B:piecewise(`\n\n"),
    ("0xF0", "syntax: ^\nUsed to raise a number to a power.\n\n"),
    ("0xF1", "syntax: ˣ√\nTakes the xth root of a number. If used on a list, it will return a list with the xth root of each element.\n\n"),
    ("0xF2", "syntax: 1-VarStats [Xlistname,freqlist]\nPerforms one-variable analysis on the data in `Xlistname` with frequency `freqlist`.\n\n"),
    ("0xF3", "syntax: 2-VarStats [Xlistname,Ylistname,freqlist]\nPerforms two-variable analysis on the data in `Xlistname` and `Ylistname` with frequency `freqlist`.\n\n"),
    ("0xF4", "syntax: LinReg(a+bx) [Xlistname,Ylistname,freqlist,regequ]\nFits a linear regression model to` Xlistname` and `Ylistname` with frequency `freqlist`, and stores the regression equation to `regequ`.\n\n"),
    ("0xF5", "syntax: ExpReg [Xlistname,Ylistname,freqlist,regequ]\nFits an exponential regression model to `Xlistname` and `Ylistname` with frequency `freqlist`, and stores the regression equation to `regequ`.\n\n"),
    ("0xF6", "syntax: LnReg [Xlistname,Ylistname,freqlist,regequ]\nFits a logarithmic regression model to `Xlistname` and `Ylistname` with frequency `freqlist`, and stores the regression equation to `regequ`.\n\n"),
    ("0xF7", "syntax: PwrReg [Xlistname,Ylistname,freqlist,regequ]\nFits a power regression model to `Xlistname` and `Ylistname` with frequency `freqlist`, and stores the regression equation to `regequ`.\n\n"),
    ("0xF8", "syntax: Med-Med [Xlistname,Ylistname,freqlist,regequ]\nFits a median-median model to `Xlistname` and `Ylistname` with frequency `freqlist`, and stores the regression equation to `regequ`.\n\n"),
    ("0xF9", "syntax: QuadReg [Xlistname,Ylistname,freqlist,regequ]\nFits a quadratic regression model to` Xlistname` and `Ylistname` with frequency `freqlist`, and stores the regression equation to `regequ`.\n\n"),
    ("0xFA", "syntax: ClrListlistname1[,listname2, ...,listname n]\nSets the dimension of one or more listnames to 0.\n\n"),
    ("0xFB", "syntax: ClrTable\nClears all values from the table.\n\n"),
    ("0xFC", "syntax: Plot#(type,Xlist[,freqlist,color#])\nUsed as the \"type\" argument in the command\nWhere # gives Plot1, Plot2 or Plot3.\n\n"),
    ("0xFD", "syntax: Plot#(type,Xlist[,freqlist,color#])\nUsed as the \"type\" argument in the command\nWhere # gives Plot1, Plot2 or Plot3.\n\n"),
    ("0xFE", "syntax: Plot#(type,Xlist[,freqlist,color#])\nUsed as the \"type\" argument in the command\nWhere # gives Plot1, Plot2 or Plot3.\n\n"),
    ("0xFF", "syntax: LinReg(ax+b) [Xlistname,Ylistname,freqlist,regequ]\nFits a linear regression model to` Xlistname` and `Ylistname` with frequency `freqlist`, and stores the regression equation to `regequ`.\n\n"),
];

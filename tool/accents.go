package main

// composed gives the precomposed Unicode letter of accent mark + base letter
// (canonical composition, generated with Python's unicodedata).
var composed = map[string]rune{
	"'a":  0x00E1, // á
	"'c":  0x0107, // ć
	"'e":  0x00E9, // é
	"'g":  0x01F5, // ǵ
	"'i":  0x00ED, // í
	"'k":  0x1E31, // ḱ
	"'l":  0x013A, // ĺ
	"'m":  0x1E3F, // ḿ
	"'n":  0x0144, // ń
	"'o":  0x00F3, // ó
	"'p":  0x1E55, // ṕ
	"'r":  0x0155, // ŕ
	"'s":  0x015B, // ś
	"'u":  0x00FA, // ú
	"'w":  0x1E83, // ẃ
	"'y":  0x00FD, // ý
	"'z":  0x017A, // ź
	"'A":  0x00C1, // Á
	"'C":  0x0106, // Ć
	"'E":  0x00C9, // É
	"'G":  0x01F4, // Ǵ
	"'I":  0x00CD, // Í
	"'K":  0x1E30, // Ḱ
	"'L":  0x0139, // Ĺ
	"'M":  0x1E3E, // Ḿ
	"'N":  0x0143, // Ń
	"'O":  0x00D3, // Ó
	"'P":  0x1E54, // Ṕ
	"'R":  0x0154, // Ŕ
	"'S":  0x015A, // Ś
	"'U":  0x00DA, // Ú
	"'W":  0x1E82, // Ẃ
	"'Y":  0x00DD, // Ý
	"'Z":  0x0179, // Ź
	"cc":  0x00E7, // ç
	"cd":  0x1E11, // ḑ
	"ce":  0x0229, // ȩ
	"cg":  0x0123, // ģ
	"ch":  0x1E29, // ḩ
	"ck":  0x0137, // ķ
	"cl":  0x013C, // ļ
	"cn":  0x0146, // ņ
	"cr":  0x0157, // ŗ
	"cs":  0x015F, // ş
	"ct":  0x0163, // ţ
	"cC":  0x00C7, // Ç
	"cD":  0x1E10, // Ḑ
	"cE":  0x0228, // Ȩ
	"cG":  0x0122, // Ģ
	"cH":  0x1E28, // Ḩ
	"cK":  0x0136, // Ķ
	"cL":  0x013B, // Ļ
	"cN":  0x0145, // Ņ
	"cR":  0x0156, // Ŗ
	"cS":  0x015E, // Ş
	"cT":  0x0162, // Ţ
	"^a":  0x00E2, // â
	"^c":  0x0109, // ĉ
	"^e":  0x00EA, // ê
	"^g":  0x011D, // ĝ
	"^h":  0x0125, // ĥ
	"^i":  0x00EE, // î
	"^j":  0x0135, // ĵ
	"^o":  0x00F4, // ô
	"^s":  0x015D, // ŝ
	"^u":  0x00FB, // û
	"^w":  0x0175, // ŵ
	"^y":  0x0177, // ŷ
	"^z":  0x1E91, // ẑ
	"^A":  0x00C2, // Â
	"^C":  0x0108, // Ĉ
	"^E":  0x00CA, // Ê
	"^G":  0x011C, // Ĝ
	"^H":  0x0124, // Ĥ
	"^I":  0x00CE, // Î
	"^J":  0x0134, // Ĵ
	"^O":  0x00D4, // Ô
	"^S":  0x015C, // Ŝ
	"^U":  0x00DB, // Û
	"^W":  0x0174, // Ŵ
	"^Y":  0x0176, // Ŷ
	"^Z":  0x1E90, // Ẑ
	".a":  0x0227, // ȧ
	".b":  0x1E03, // ḃ
	".c":  0x010B, // ċ
	".d":  0x1E0B, // ḋ
	".e":  0x0117, // ė
	".f":  0x1E1F, // ḟ
	".g":  0x0121, // ġ
	".h":  0x1E23, // ḣ
	".m":  0x1E41, // ṁ
	".n":  0x1E45, // ṅ
	".o":  0x022F, // ȯ
	".p":  0x1E57, // ṗ
	".r":  0x1E59, // ṙ
	".s":  0x1E61, // ṡ
	".t":  0x1E6B, // ṫ
	".w":  0x1E87, // ẇ
	".x":  0x1E8B, // ẋ
	".y":  0x1E8F, // ẏ
	".z":  0x017C, // ż
	".A":  0x0226, // Ȧ
	".B":  0x1E02, // Ḃ
	".C":  0x010A, // Ċ
	".D":  0x1E0A, // Ḋ
	".E":  0x0116, // Ė
	".F":  0x1E1E, // Ḟ
	".G":  0x0120, // Ġ
	".H":  0x1E22, // Ḣ
	".I":  0x0130, // İ
	".M":  0x1E40, // Ṁ
	".N":  0x1E44, // Ṅ
	".O":  0x022E, // Ȯ
	".P":  0x1E56, // Ṗ
	".R":  0x1E58, // Ṙ
	".S":  0x1E60, // Ṡ
	".T":  0x1E6A, // Ṫ
	".W":  0x1E86, // Ẇ
	".X":  0x1E8A, // Ẋ
	".Y":  0x1E8E, // Ẏ
	".Z":  0x017B, // Ż
	"`a":  0x00E0, // à
	"`e":  0x00E8, // è
	"`i":  0x00EC, // ì
	"`n":  0x01F9, // ǹ
	"`o":  0x00F2, // ò
	"`u":  0x00F9, // ù
	"`w":  0x1E81, // ẁ
	"`y":  0x1EF3, // ỳ
	"`A":  0x00C0, // À
	"`E":  0x00C8, // È
	"`I":  0x00CC, // Ì
	"`N":  0x01F8, // Ǹ
	"`O":  0x00D2, // Ò
	"`U":  0x00D9, // Ù
	"`W":  0x1E80, // Ẁ
	"`Y":  0x1EF2, // Ỳ
	"~a":  0x00E3, // ã
	"~e":  0x1EBD, // ẽ
	"~i":  0x0129, // ĩ
	"~n":  0x00F1, // ñ
	"~o":  0x00F5, // õ
	"~u":  0x0169, // ũ
	"~v":  0x1E7D, // ṽ
	"~y":  0x1EF9, // ỹ
	"~A":  0x00C3, // Ã
	"~E":  0x1EBC, // Ẽ
	"~I":  0x0128, // Ĩ
	"~N":  0x00D1, // Ñ
	"~O":  0x00D5, // Õ
	"~U":  0x0168, // Ũ
	"~V":  0x1E7C, // Ṽ
	"~Y":  0x1EF8, // Ỹ
	"\"a": 0x00E4, // ä
	"\"e": 0x00EB, // ë
	"\"h": 0x1E27, // ḧ
	"\"i": 0x00EF, // ï
	"\"o": 0x00F6, // ö
	"\"t": 0x1E97, // ẗ
	"\"u": 0x00FC, // ü
	"\"w": 0x1E85, // ẅ
	"\"x": 0x1E8D, // ẍ
	"\"y": 0x00FF, // ÿ
	"\"A": 0x00C4, // Ä
	"\"E": 0x00CB, // Ë
	"\"H": 0x1E26, // Ḧ
	"\"I": 0x00CF, // Ï
	"\"O": 0x00D6, // Ö
	"\"U": 0x00DC, // Ü
	"\"W": 0x1E84, // Ẅ
	"\"X": 0x1E8C, // Ẍ
	"\"Y": 0x0178, // Ÿ
}

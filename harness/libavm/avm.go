// Package libavm is the reference table of AVM opcodes used by the checks:
// for each opcode the version that introduced it for logic signatures and for
// applications (0: not available there), its immediate operands and the types
// it takes from and leaves on the stack. It is written from the AVM
// specification (go-algorand, version 8 plus the pairing opcodes of version 9)
// and does not depend on the code under test.
package libavm

// Op is one opcode. Imm has one letter per immediate, optional ones in brackets:
// u uint8, s int8, i integer, I integer or named constant, y bytes, l label,
// N integers, Y byte literals, L labels, t transaction field, a array transaction
// field, x inner transaction field, g global field, e ECDSA curve, h asset
// holding, p asset params, P app params, c account params, v VRF standard,
// k block field, 6 base64 alphabet, j JSON type, G EC group, m method
// signature, A address. Args and Rets are stack types, topmost last:
// U integer, B bytes, . any.
type Op struct {
	Name       string
	Sig, App   uint64
	Imm        string
	Args, Rets string
}

// Ops lists all opcodes.
var Ops = []Op{
	{"err", 1, 1, "", "", ""},
	{"sha256", 1, 1, "", "B", "B"},
	{"keccak256", 1, 1, "", "B", "B"},
	{"sha512_256", 1, 1, "", "B", "B"},
	{"ed25519verify", 1, 5, "", "BBB", "U"},
	{"ecdsa_verify", 5, 5, "e", "BBBBB", "U"},
	{"ecdsa_pk_decompress", 5, 5, "e", "B", "BB"},
	{"ecdsa_pk_recover", 5, 5, "e", "BUBB", "BB"},
	{"+", 1, 1, "", "UU", "U"},
	{"-", 1, 1, "", "UU", "U"},
	{"/", 1, 1, "", "UU", "U"},
	{"*", 1, 1, "", "UU", "U"},
	{"<", 1, 1, "", "UU", "U"},
	{">", 1, 1, "", "UU", "U"},
	{"<=", 1, 1, "", "UU", "U"},
	{">=", 1, 1, "", "UU", "U"},
	{"&&", 1, 1, "", "UU", "U"},
	{"||", 1, 1, "", "UU", "U"},
	{"==", 1, 1, "", "..", "U"},
	{"!=", 1, 1, "", "..", "U"},
	{"!", 1, 1, "", "U", "U"},
	{"len", 1, 1, "", "B", "U"},
	{"itob", 1, 1, "", "U", "B"},
	{"btoi", 1, 1, "", "B", "U"},
	{"%", 1, 1, "", "UU", "U"},
	{"|", 1, 1, "", "UU", "U"},
	{"&", 1, 1, "", "UU", "U"},
	{"^", 1, 1, "", "UU", "U"},
	{"~", 1, 1, "", "U", "U"},
	{"mulw", 1, 1, "", "UU", "UU"},
	{"addw", 2, 2, "", "UU", "UU"},
	{"divmodw", 4, 4, "", "UUUU", "UUUU"},
	{"intcblock", 1, 1, "N", "", ""},
	{"intc", 1, 1, "u", "", "U"},
	{"intc_0", 1, 1, "", "", "U"},
	{"intc_1", 1, 1, "", "", "U"},
	{"intc_2", 1, 1, "", "", "U"},
	{"intc_3", 1, 1, "", "", "U"},
	{"bytecblock", 1, 1, "Y", "", ""},
	{"bytec", 1, 1, "u", "", "B"},
	{"bytec_0", 1, 1, "", "", "B"},
	{"bytec_1", 1, 1, "", "", "B"},
	{"bytec_2", 1, 1, "", "", "B"},
	{"bytec_3", 1, 1, "", "", "B"},
	{"arg", 1, 0, "u", "", "B"},
	{"arg_0", 1, 0, "", "", "B"},
	{"arg_1", 1, 0, "", "", "B"},
	{"arg_2", 1, 0, "", "", "B"},
	{"arg_3", 1, 0, "", "", "B"},
	{"txn", 1, 1, "t[u]", "", "."},
	{"global", 1, 1, "g", "", "."},
	{"gtxn", 1, 1, "ut[u]", "", "."},
	{"load", 1, 1, "u", "", "."},
	{"store", 1, 1, "u", ".", ""},
	{"txna", 2, 2, "au", "", "."},
	{"gtxna", 2, 2, "uau", "", "."},
	{"gtxns", 3, 3, "t[u]", "U", "."},
	{"gtxnsa", 3, 3, "au", "U", "."},
	{"gload", 0, 4, "uu", "", "."},
	{"gloads", 0, 4, "u", "U", "."},
	{"gaid", 0, 4, "u", "", "U"},
	{"gaids", 0, 4, "", "U", "U"},
	{"loads", 5, 5, "", "U", "."},
	{"stores", 5, 5, "", "U.", ""},
	{"bnz", 1, 1, "l", "U", ""},
	{"bz", 2, 2, "l", "U", ""},
	{"b", 2, 2, "l", "", ""},
	{"return", 2, 2, "", "U", ""},
	{"assert", 3, 3, "", "U", ""},
	{"bury", 8, 8, "u", ".", ""},
	{"popn", 8, 8, "u", "", ""},
	{"dupn", 8, 8, "u", ".", ""},
	{"pop", 1, 1, "", ".", ""},
	{"dup", 1, 1, "", ".", ".."},
	{"dup2", 2, 2, "", "..", "...."},
	{"dig", 3, 3, "u", ".", ".."},
	{"swap", 3, 3, "", "..", ".."},
	{"select", 3, 3, "", "..U", "."},
	{"cover", 5, 5, "u", ".", "."},
	{"uncover", 5, 5, "u", ".", "."},
	{"concat", 2, 2, "", "BB", "B"},
	{"substring", 2, 2, "uu", "B", "B"},
	{"substring3", 2, 2, "", "BUU", "B"},
	{"getbit", 3, 3, "", ".U", "U"},
	{"setbit", 3, 3, "", ".UU", "."},
	{"getbyte", 3, 3, "", "BU", "U"},
	{"setbyte", 3, 3, "", "BUU", "B"},
	{"extract", 5, 5, "[uu]", "B", "B"},
	{"extract3", 5, 5, "", "BUU", "B"},
	{"extract_uint16", 5, 5, "", "BU", "U"},
	{"extract_uint32", 5, 5, "", "BU", "U"},
	{"extract_uint64", 5, 5, "", "BU", "U"},
	{"replace2", 7, 7, "u", "BB", "B"},
	{"replace3", 7, 7, "", "BUB", "B"},
	{"base64_decode", 7, 7, "6", "B", "B"},
	{"json_ref", 7, 7, "j", "BB", "."},
	{"balance", 0, 2, "", ".", "U"},
	{"app_opted_in", 0, 2, "", ".U", "U"},
	{"app_local_get", 0, 2, "", ".B", "."},
	{"app_local_get_ex", 0, 2, "", ".UB", ".U"},
	{"app_global_get", 0, 2, "", "B", "."},
	{"app_global_get_ex", 0, 2, "", "UB", ".U"},
	{"app_local_put", 0, 2, "", ".B.", ""},
	{"app_global_put", 0, 2, "", "B.", ""},
	{"app_local_del", 0, 2, "", ".B", ""},
	{"app_global_del", 0, 2, "", "B", ""},
	{"asset_holding_get", 0, 2, "h", ".U", ".U"},
	{"asset_params_get", 0, 2, "p", "U", ".U"},
	{"app_params_get", 0, 5, "P", "U", ".U"},
	{"acct_params_get", 0, 6, "c", ".", ".U"},
	{"min_balance", 0, 3, "", ".", "U"},
	{"pushbytes", 3, 3, "y", "", "B"},
	{"pushint", 3, 3, "i", "", "U"},
	{"pushbytess", 8, 8, "Y", "", ""},
	{"pushints", 8, 8, "N", "", ""},
	{"ed25519verify_bare", 7, 7, "", "BBB", "U"},
	{"callsub", 4, 4, "l", "", ""},
	{"retsub", 4, 4, "", "", ""},
	{"proto", 8, 8, "uu", "", ""},
	{"frame_dig", 8, 8, "s", "", "."},
	{"frame_bury", 8, 8, "s", ".", ""},
	{"switch", 8, 8, "L", "U", ""},
	{"match", 8, 8, "L", "", ""},
	{"shl", 4, 4, "", "UU", "U"},
	{"shr", 4, 4, "", "UU", "U"},
	{"sqrt", 4, 4, "", "U", "U"},
	{"bitlen", 4, 4, "", ".", "U"},
	{"exp", 4, 4, "", "UU", "U"},
	{"expw", 4, 4, "", "UU", "UU"},
	{"bsqrt", 6, 6, "", "B", "B"},
	{"divw", 6, 6, "", "UUU", "U"},
	{"sha3_256", 7, 7, "", "B", "B"},
	{"ec_add", 9, 9, "G", "BB", "B"},
	{"ec_scalar_mul", 9, 9, "G", "BB", "B"},
	{"ec_pairing_check", 9, 9, "G", "BB", "U"},
	{"ec_multi_exp", 9, 9, "G", "BB", "B"},
	{"ec_subgroup_check", 9, 9, "G", "B", "U"},
	{"ec_map_to", 9, 9, "G", "B", "B"},
	{"b+", 4, 4, "", "BB", "B"},
	{"b-", 4, 4, "", "BB", "B"},
	{"b/", 4, 4, "", "BB", "B"},
	{"b*", 4, 4, "", "BB", "B"},
	{"b<", 4, 4, "", "BB", "U"},
	{"b>", 4, 4, "", "BB", "U"},
	{"b<=", 4, 4, "", "BB", "U"},
	{"b>=", 4, 4, "", "BB", "U"},
	{"b==", 4, 4, "", "BB", "U"},
	{"b!=", 4, 4, "", "BB", "U"},
	{"b%", 4, 4, "", "BB", "B"},
	{"b|", 4, 4, "", "BB", "B"},
	{"b&", 4, 4, "", "BB", "B"},
	{"b^", 4, 4, "", "BB", "B"},
	{"b~", 4, 4, "", "B", "B"},
	{"bzero", 4, 4, "", "U", "B"},
	{"log", 0, 5, "", "B", ""},
	{"itxn_begin", 0, 5, "", "", ""},
	{"itxn_field", 0, 5, "x", ".", ""},
	{"itxn_submit", 0, 5, "", "", ""},
	{"itxn", 0, 5, "t", "", "."},
	{"itxna", 0, 5, "au", "", "."},
	{"itxn_next", 0, 6, "", "", ""},
	{"gitxn", 0, 6, "ut", "", "."},
	{"gitxna", 0, 6, "uau", "", "."},
	{"box_create", 0, 8, "", "BU", "U"},
	{"box_extract", 0, 8, "", "BUU", "B"},
	{"box_replace", 0, 8, "", "BUB", ""},
	{"box_del", 0, 8, "", "B", "U"},
	{"box_len", 0, 8, "", "B", "UU"},
	{"box_get", 0, 8, "", "B", "BU"},
	{"box_put", 0, 8, "", "BB", ""},
	{"txnas", 5, 5, "a", "U", "."},
	{"gtxnas", 5, 5, "ua", "U", "."},
	{"gtxnsas", 5, 5, "a", "UU", "."},
	{"args", 5, 0, "", "U", "B"},
	{"gloadss", 0, 6, "", "UU", "."},
	{"itxnas", 0, 6, "a", "U", "."},
	{"gitxnas", 0, 6, "ua", "U", "."},
	{"vrf_verify", 7, 7, "v", "BBB", "BU"},
	{"block", 7, 7, "k", "U", "."},
	{"int", 1, 1, "I", "", "U"},
	{"byte", 1, 1, "y", "", "B"},
	{"addr", 1, 1, "A", "", "B"},
	{"method", 1, 1, "m", "", "B"},
	{"replace", 7, 7, "[u]", "", ""},
}

// Find is the opcode of that name.
func Find(name string) Op {
	for _, o := range Ops {
		if o.Name == name {
			return o
		}
	}
	return Op{}
}

// Sample is the text of valid immediates for the letters of imm, optional ones left out.
func Sample(imm string) string {
	s := ""
	for i := 0; i < len(imm); i++ {
		switch imm[i] {
		case '[':
			return s
		case 'u', 'i', 'I', 'N':
			s += " 1"
		case 's':
			s += " -1"
		case 'y', 'Y':
			s += " 0x01"
		case 'l', 'L':
			s += " x"
		case 't':
			s += " Fee"
		case 'a':
			s += " Accounts"
		case 'x':
			s += " Fee"
		case 'g':
			s += " MinTxnFee"
		case 'e':
			s += " Secp256k1"
		case 'h':
			s += " AssetBalance"
		case 'p':
			s += " AssetTotal"
		case 'P':
			s += " AppCreator"
		case 'c':
			s += " AcctBalance"
		case 'v':
			s += " VrfAlgorand"
		case 'k':
			s += " BlkSeed"
		case '6':
			s += " URLEncoding"
		case 'j':
			s += " JSONString"
		case 'G':
			s += " BN254_G1"
		case 'm':
			s += " \"m()void\""
		case 'A':
			s += " AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAY5HFKQ"
		}
	}
	return s
}

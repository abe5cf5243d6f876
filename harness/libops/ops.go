// Package libops takes instructions of the code under test apart: the AVM name
// of the instruction and the values of its immediates in source order.
package libops

import "github.com/dragmz/teal"

// Imm is the value of one immediate: a number (signed ones sign-extended) or a string.
type Imm struct {
	Num bool
	N   uint64
	S   string
}

func n(x uint64) Imm { return Imm{Num: true, N: x} }
func s(x string) Imm { return Imm{S: x} }

// Of is the name and immediates of op; an instruction without immediates is
// known by what it prints.
func Of(op teal.Op) (string, []Imm) {
	switch e := op.(type) {
	case *teal.AcctParamsGetExpr:
		return "acct_params_get", []Imm{n(uint64(e.Field))}
	case *teal.AddrExpr:
		return "addr", []Imm{s(e.Address)}
	case *teal.AppParamsGetExpr:
		return "app_params_get", []Imm{n(uint64(e.Field))}
	case *teal.ArgExpr:
		return "arg", []Imm{n(uint64(e.Index))}
	case *teal.AssetHoldingGetExpr:
		return "asset_holding_get", []Imm{n(uint64(e.Field))}
	case *teal.AssetParamsGetExpr:
		return "asset_params_get", []Imm{n(uint64(e.Field))}
	case *teal.BExpr:
		return "b", []Imm{s(e.Label.Name)}
	case *teal.Base64DecodeExpr:
		return "base64_decode", []Imm{n(uint64(e.Index))}
	case *teal.BlockExpr:
		return "block", []Imm{n(uint64(e.Field))}
	case *teal.BnzExpr:
		return "bnz", []Imm{s(e.Label.Name)}
	case *teal.BuryExpr:
		return "bury", []Imm{n(uint64(e.Depth))}
	case *teal.ByteExpr:
		return "byte", []Imm{s(string(e.Value))}
	case *teal.BytecBlockExpr:
		var r []Imm
		for _, x := range e.Values {
			r = append(r, s(string(x)))
		}
		return "bytecblock", r
	case *teal.BytecExpr:
		return "bytec", []Imm{n(uint64(e.Index))}
	case *teal.BzExpr:
		return "bz", []Imm{s(e.Label.Name)}
	case *teal.CallSubExpr:
		return "callsub", []Imm{s(e.Label.Name)}
	case *teal.CoverExpr:
		return "cover", []Imm{n(uint64(e.Depth))}
	case *teal.DigExpr:
		return "dig", []Imm{n(uint64(e.Index))}
	case *teal.DupNExpr:
		return "dupn", []Imm{n(uint64(e.Count))}
	case *teal.EcAddExpr:
		return "ec_add", []Imm{n(uint64(e.Group))}
	case *teal.EcMapToExpr:
		return "ec_map_to", []Imm{n(uint64(e.Group))}
	case *teal.EcMultiExpExpr:
		return "ec_multi_exp", []Imm{n(uint64(e.Group))}
	case *teal.EcPairingCheckExpr:
		return "ec_pairing_check", []Imm{n(uint64(e.Group))}
	case *teal.EcScalarMul:
		return "ec_scalar_mul", []Imm{n(uint64(e.Group))}
	case *teal.EcSubgroupCheckExpr:
		return "ec_subgroup_check", []Imm{n(uint64(e.Group))}
	case *teal.EcdsaPkDecompressExpr:
		return "ecdsa_pk_decompress", []Imm{n(uint64(e.Index))}
	case *teal.EcdsaPkRecoverExpr:
		return "ecdsa_pk_recover", []Imm{n(uint64(e.Index))}
	case *teal.EcdsaVerifyExpr:
		return "ecdsa_verify", []Imm{n(uint64(e.Index))}
	case *teal.ExtractExpr:
		return "extract", []Imm{n(uint64(e.Start)), n(uint64(e.Length))}
	case *teal.FrameBuryExpr:
		return "frame_bury", []Imm{n(uint64(e.Index))}
	case *teal.FrameDigExpr:
		return "frame_dig", []Imm{n(uint64(e.Index))}
	case *teal.GaidExpr:
		return "gaid", []Imm{n(uint64(e.Group))}
	case *teal.GitxnExpr:
		return "gitxn", []Imm{n(uint64(e.Index)), n(uint64(e.Field))}
	case *teal.GitxnaExpr:
		return "gitxna", []Imm{n(uint64(e.Group)), n(uint64(e.Field)), n(uint64(e.Index))}
	case *teal.GitxnasExpr:
		return "gitxnas", []Imm{n(uint64(e.Index)), n(uint64(e.Field))}
	case *teal.GloadExpr:
		return "gload", []Imm{n(uint64(e.Group)), n(uint64(e.Index))}
	case *teal.GloadsExpr:
		return "gloads", []Imm{n(uint64(e.Index))}
	case *teal.GlobalExpr:
		return "global", []Imm{n(uint64(e.Field))}
	case *teal.GtxnExpr:
		return "gtxn", []Imm{n(uint64(e.Group)), n(uint64(e.Field))}
	case *teal.GtxnaExpr:
		return "gtxna", []Imm{n(uint64(e.Group)), n(uint64(e.Field)), n(uint64(e.Index))}
	case *teal.GtxnasExpr:
		return "gtxnas", []Imm{n(uint64(e.Index)), n(uint64(e.Field))}
	case *teal.GtxnsExpr:
		return "gtxns", []Imm{n(uint64(e.Field))}
	case *teal.GtxnsaExpr:
		return "gtxnsa", []Imm{n(uint64(e.Field)), n(uint64(e.Index))}
	case *teal.GtxnsasExpr:
		return "gtxnsas", []Imm{n(uint64(e.Field))}
	case *teal.IntExpr:
		return "int", []Imm{n(uint64(e.Value))}
	case *teal.IntcBlockExpr:
		var r []Imm
		for _, x := range e.Values {
			r = append(r, n(x))
		}
		return "intcblock", r
	case *teal.IntcExpr:
		return "intc", []Imm{n(uint64(e.Index))}
	case *teal.ItxnExpr:
		return "itxn", []Imm{n(uint64(e.Field))}
	case *teal.ItxnFieldExpr:
		return "itxn_field", []Imm{n(uint64(e.Field))}
	case *teal.ItxnaExpr:
		return "itxna", []Imm{n(uint64(e.Field)), n(uint64(e.Index))}
	case *teal.ItxnasExpr:
		return "itxnas", []Imm{n(uint64(e.Field))}
	case *teal.JsonRefExpr:
		return "json_ref", []Imm{n(uint64(e.Index))}
	case *teal.LoadExpr:
		return "load", []Imm{n(uint64(e.Index))}
	case *teal.MatchExpr:
		var r []Imm
		for _, x := range e.Targets {
			r = append(r, s(x.Name))
		}
		return "match", r
	case *teal.MethodExpr:
		return "method", []Imm{s(e.Signature)}
	case *teal.PopNExpr:
		return "popn", []Imm{n(uint64(e.Depth))}
	case *teal.ProtoExpr:
		return "proto", []Imm{n(uint64(e.Args)), n(uint64(e.Results))}
	case *teal.PushBytesExpr:
		return "pushbytes", []Imm{s(string(e.Value))}
	case *teal.PushBytessExpr:
		var r []Imm
		for _, x := range e.Bytess {
			r = append(r, s(string(x)))
		}
		return "pushbytess", r
	case *teal.PushIntExpr:
		return "pushint", []Imm{n(uint64(e.Value))}
	case *teal.PushIntsExpr:
		var r []Imm
		for _, x := range e.Ints {
			r = append(r, n(x))
		}
		return "pushints", r
	case *teal.Replace2Expr:
		return "replace2", []Imm{n(uint64(e.Start))}
	case *teal.StoreExpr:
		return "store", []Imm{n(uint64(e.Index))}
	case *teal.SubstringExpr:
		return "substring", []Imm{n(uint64(e.Start)), n(uint64(e.End))}
	case *teal.SwitchExpr:
		var r []Imm
		for _, x := range e.Targets {
			r = append(r, s(x.Name))
		}
		return "switch", r
	case *teal.TxnExpr:
		return "txn", []Imm{n(uint64(e.Field))}
	case *teal.TxnaExpr:
		return "txna", []Imm{n(uint64(e.Field)), n(uint64(e.Index))}
	case *teal.TxnasExpr:
		return "txnas", []Imm{n(uint64(e.Field))}
	case *teal.UncoverExpr:
		return "uncover", []Imm{n(uint64(e.Depth))}
	case *teal.VrfVerifyExpr:
		return "vrf_verify", []Imm{n(uint64(e.Field))}
	case *teal.LabelExpr:
		return ":", []Imm{s(e.Name)}
	case *teal.PragmaExpr:
		return "#pragma", []Imm{n(uint64(e.Version))}
	}
	return op.String(), nil
}

// Same tells that two instructions are equal.
func Same(a, b teal.Op) bool {
	n, x := Of(a)
	m, y := Of(b)
	if n != m || len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i].Num != y[i].Num || x[i].N != y[i].N || x[i].S != y[i].S {
			return false
		}
	}
	return true
}

package libavm

// Canon is the name of the instruction that op with k immediates stands for.
func Canon(name string, k int) string {
	switch name {
	case "txn":
		if k == 2 {
			return "txna"
		}
	case "gtxn":
		if k == 3 {
			return "gtxna"
		}
	case "gtxns":
		if k == 2 {
			return "gtxnsa"
		}
	case "extract":
		if k == 0 {
			return "extract3"
		}
	case "replace":
		if k == 0 {
			return "replace3"
		}
		return "replace2"
	}
	return name
}

// Letters is imm without its brackets and the number of required ones.
func Letters(imm string) (string, int) {
	s, req := "", -1
	for i := 0; i < len(imm); i++ {
		switch imm[i] {
		case '[':
			req = len(s)
		case ']':
		default:
			s += imm[i : i+1]
		}
	}
	if req < 0 {
		req = len(s)
	}
	return s, req
}

// Forms is the immediate letters of op given k of them: with an index the
// field must be an array field.
func Forms(op Op, k int) string {
	s, req := Letters(op.Imm)
	if k < len(s) || req == len(s) {
		return s[:k]
	}
	t := ""
	for i := 0; i < k; i++ {
		if s[i] == 't' && s[k-1] == 'u' {
			t += "a"
		} else {
			t += s[i : i+1]
		}
	}
	return t
}

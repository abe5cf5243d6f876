package libavm

// Field is a named value of an immediate. Group is the letter of Op.Imm; for
// transaction fields (group t) Itx is the version that allows setting the field
// on inner transactions (0: never) and Array tells the fields that take an index.
type Field struct {
	Group   byte
	Name    string
	Value   int
	Version uint64
	Itx     uint64
	Array   bool
}

// Fields lists the named field values of the AVM.
var Fields = []Field{
	{'t', "Sender", 0, 0, 5, false},
	{'t', "Fee", 1, 0, 5, false},
	{'t', "FirstValid", 2, 0, 0, false},
	{'t', "FirstValidTime", 3, 7, 0, false},
	{'t', "LastValid", 4, 0, 0, false},
	{'t', "Note", 5, 0, 6, false},
	{'t', "Lease", 6, 0, 0, false},
	{'t', "Receiver", 7, 0, 5, false},
	{'t', "Amount", 8, 0, 5, false},
	{'t', "CloseRemainderTo", 9, 0, 5, false},
	{'t', "VotePK", 10, 0, 6, false},
	{'t', "SelectionPK", 11, 0, 6, false},
	{'t', "VoteFirst", 12, 0, 6, false},
	{'t', "VoteLast", 13, 0, 6, false},
	{'t', "VoteKeyDilution", 14, 0, 6, false},
	{'t', "Type", 15, 0, 5, false},
	{'t', "TypeEnum", 16, 0, 5, false},
	{'t', "XferAsset", 17, 0, 5, false},
	{'t', "AssetAmount", 18, 0, 5, false},
	{'t', "AssetSender", 19, 0, 5, false},
	{'t', "AssetReceiver", 20, 0, 5, false},
	{'t', "AssetCloseTo", 21, 0, 5, false},
	{'t', "GroupIndex", 22, 0, 0, false},
	{'t', "TxID", 23, 0, 0, false},
	{'t', "ApplicationID", 24, 2, 6, false},
	{'t', "OnCompletion", 25, 2, 6, false},
	{'t', "ApplicationArgs", 26, 2, 6, true},
	{'t', "NumAppArgs", 27, 2, 0, false},
	{'t', "Accounts", 28, 2, 6, true},
	{'t', "NumAccounts", 29, 2, 0, false},
	{'t', "ApprovalProgram", 30, 2, 6, false},
	{'t', "ClearStateProgram", 31, 2, 6, false},
	{'t', "RekeyTo", 32, 2, 6, false},
	{'t', "ConfigAsset", 33, 2, 5, false},
	{'t', "ConfigAssetTotal", 34, 2, 5, false},
	{'t', "ConfigAssetDecimals", 35, 2, 5, false},
	{'t', "ConfigAssetDefaultFrozen", 36, 2, 5, false},
	{'t', "ConfigAssetUnitName", 37, 2, 5, false},
	{'t', "ConfigAssetName", 38, 2, 5, false},
	{'t', "ConfigAssetURL", 39, 2, 5, false},
	{'t', "ConfigAssetMetadataHash", 40, 2, 5, false},
	{'t', "ConfigAssetManager", 41, 2, 5, false},
	{'t', "ConfigAssetReserve", 42, 2, 5, false},
	{'t', "ConfigAssetFreeze", 43, 2, 5, false},
	{'t', "ConfigAssetClawback", 44, 2, 5, false},
	{'t', "FreezeAsset", 45, 2, 5, false},
	{'t', "FreezeAssetAccount", 46, 2, 5, false},
	{'t', "FreezeAssetFrozen", 47, 2, 5, false},
	{'t', "Assets", 48, 3, 6, true},
	{'t', "NumAssets", 49, 3, 0, false},
	{'t', "Applications", 50, 3, 6, true},
	{'t', "NumApplications", 51, 3, 0, false},
	{'t', "GlobalNumUint", 52, 3, 6, false},
	{'t', "GlobalNumByteSlice", 53, 3, 6, false},
	{'t', "LocalNumUint", 54, 3, 6, false},
	{'t', "LocalNumByteSlice", 55, 3, 6, false},
	{'t', "ExtraProgramPages", 56, 4, 6, false},
	{'t', "Nonparticipation", 57, 5, 6, false},
	{'t', "Logs", 58, 5, 0, true},
	{'t', "NumLogs", 59, 5, 0, false},
	{'t', "CreatedAssetID", 60, 5, 0, false},
	{'t', "CreatedApplicationID", 61, 5, 0, false},
	{'t', "LastLog", 62, 6, 0, false},
	{'t', "StateProofPK", 63, 6, 6, false},
	{'t', "ApprovalProgramPages", 64, 7, 7, true},
	{'t', "NumApprovalProgramPages", 65, 7, 0, false},
	{'t', "ClearStateProgramPages", 66, 7, 7, true},
	{'t', "NumClearStateProgramPages", 67, 7, 0, false},
	{'g', "MinTxnFee", 0, 0, 0, false},
	{'g', "MinBalance", 1, 0, 0, false},
	{'g', "MaxTxnLife", 2, 0, 0, false},
	{'g', "ZeroAddress", 3, 0, 0, false},
	{'g', "GroupSize", 4, 0, 0, false},
	{'g', "LogicSigVersion", 5, 2, 0, false},
	{'g', "Round", 6, 2, 0, false},
	{'g', "LatestTimestamp", 7, 2, 0, false},
	{'g', "CurrentApplicationID", 8, 2, 0, false},
	{'g', "CreatorAddress", 9, 3, 0, false},
	{'g', "CurrentApplicationAddress", 10, 5, 0, false},
	{'g', "GroupID", 11, 5, 0, false},
	{'g', "OpcodeBudget", 12, 6, 0, false},
	{'g', "CallerApplicationID", 13, 6, 0, false},
	{'g', "CallerApplicationAddress", 14, 6, 0, false},
	{'e', "Secp256k1", 0, 5, 0, false},
	{'e', "Secp256r1", 1, 7, 0, false},
	{'6', "URLEncoding", 0, 6, 0, false},
	{'6', "StdEncoding", 1, 6, 0, false},
	{'j', "JSONString", 0, 7, 0, false},
	{'j', "JSONUint64", 1, 7, 0, false},
	{'j', "JSONObject", 2, 7, 0, false},
	{'v', "VrfAlgorand", 0, 7, 0, false},
	{'k', "BlkSeed", 0, 7, 0, false},
	{'k', "BlkTimestamp", 1, 7, 0, false},
	{'h', "AssetBalance", 0, 2, 0, false},
	{'h', "AssetFrozen", 1, 2, 0, false},
	{'p', "AssetTotal", 0, 2, 0, false},
	{'p', "AssetDecimals", 1, 2, 0, false},
	{'p', "AssetDefaultFrozen", 2, 2, 0, false},
	{'p', "AssetUnitName", 3, 2, 0, false},
	{'p', "AssetName", 4, 2, 0, false},
	{'p', "AssetURL", 5, 2, 0, false},
	{'p', "AssetMetadataHash", 6, 2, 0, false},
	{'p', "AssetManager", 7, 2, 0, false},
	{'p', "AssetReserve", 8, 2, 0, false},
	{'p', "AssetFreeze", 9, 2, 0, false},
	{'p', "AssetClawback", 10, 2, 0, false},
	{'p', "AssetCreator", 11, 5, 0, false},
	{'P', "AppApprovalProgram", 0, 5, 0, false},
	{'P', "AppClearStateProgram", 1, 5, 0, false},
	{'P', "AppGlobalNumUint", 2, 5, 0, false},
	{'P', "AppGlobalNumByteSlice", 3, 5, 0, false},
	{'P', "AppLocalNumUint", 4, 5, 0, false},
	{'P', "AppLocalNumByteSlice", 5, 5, 0, false},
	{'P', "AppExtraProgramPages", 6, 5, 0, false},
	{'P', "AppCreator", 7, 5, 0, false},
	{'P', "AppAddress", 8, 5, 0, false},
	{'c', "AcctBalance", 0, 6, 0, false},
	{'c', "AcctMinBalance", 1, 6, 0, false},
	{'c', "AcctAuthAddr", 2, 6, 0, false},
	{'c', "AcctTotalNumUint", 3, 8, 0, false},
	{'c', "AcctTotalNumByteSlice", 4, 8, 0, false},
	{'c', "AcctTotalExtraAppPages", 5, 8, 0, false},
	{'c', "AcctTotalAppsCreated", 6, 8, 0, false},
	{'c', "AcctTotalAppsOptedIn", 7, 8, 0, false},
	{'c', "AcctTotalAssetsCreated", 8, 8, 0, false},
	{'c', "AcctTotalAssets", 9, 8, 0, false},
	{'c', "AcctTotalBoxes", 10, 8, 0, false},
	{'c', "AcctTotalBoxBytes", 11, 8, 0, false},
	{'G', "BN254_G1", 0, 9, 0, false},
	{'G', "BN254_G2", 1, 9, 0, false},
	{'G', "BLS12_381_G1", 2, 9, 0, false},
	{'G', "BLS12_381_G2", 3, 9, 0, false},
}

// Const is a named integer constant.
type Const struct {
	Name  string
	Value uint64
}

// Consts are the transaction types and completion actions.
var Consts = []Const{
	{"unknown", 0},
	{"pay", 1},
	{"keyreg", 2},
	{"acfg", 3},
	{"axfer", 4},
	{"afrz", 5},
	{"appl", 6},
	{"Payment", 1},
	{"KeyRegistration", 2},
	{"AssetConfig", 3},
	{"AssetTransfer", 4},
	{"AssetFreeze", 5},
	{"ApplicationCall", 6},
	{"NoOp", 0},
	{"OptIn", 1},
	{"CloseOut", 2},
	{"ClearState", 3},
	{"UpdateApplication", 4},
	{"DeleteApplication", 5},
}

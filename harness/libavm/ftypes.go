package libavm

var byteFields = []string{
	"Sender", "Note", "Lease", "Receiver", "CloseRemainderTo", "VotePK", "SelectionPK", "Type",
	"AssetSender", "AssetReceiver", "AssetCloseTo", "TxID", "ApplicationArgs", "Accounts",
	"ApprovalProgram", "ClearStateProgram", "RekeyTo", "ConfigAssetUnitName", "ConfigAssetName",
	"ConfigAssetURL", "ConfigAssetMetadataHash", "ConfigAssetManager", "ConfigAssetReserve",
	"ConfigAssetFreeze", "ConfigAssetClawback", "FreezeAssetAccount", "Logs", "LastLog",
	"StateProofPK", "ApprovalProgramPages", "ClearStateProgramPages",
	"ZeroAddress", "CreatorAddress", "CurrentApplicationAddress", "GroupID", "CallerApplicationAddress",
	"BlkSeed",
	"AssetUnitName", "AssetName", "AssetURL", "AssetMetadataHash", "AssetManager", "AssetReserve",
	"AssetFreeze", "AssetClawback", "AssetCreator",
	"AppApprovalProgram", "AppClearStateProgram", "AppCreator", "AppAddress",
	"AcctAuthAddr",
}

// TypeOf is the stack type of a field, U or B.
func TypeOf(f *Field) byte {
	for _, n := range byteFields {
		if f.Name == n {
			return 'B'
		}
	}
	return 'U'
}

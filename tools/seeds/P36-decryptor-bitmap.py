id = "P36-decryptor-bitmap"; prop = "P36"; pkg = "mktfhe"
edits = [("mktfhe/decryptor.go", "		PartyBitMap: vec.Copy(d.PartyBitMap),\n\n		SecretKeys: vec.Copy(d.SecretKeys),", "		PartyBitMap: d.PartyBitMap,\n\n		SecretKeys: d.SecretKeys[:d.Params.partyCount:d.Params.partyCount],")]
needs = "a safe copy of a decryptor that gets a key the original does not have, and a decryption with the original afterwards"
breaks = "the copy shares the party map with the original, which then dereferences a decryptor it does not have"
demo = '''
package mktfhe

import (
	"testing"

	"github.com/sp301415/tfhe-go/tfhe"
)

func TestZZDemo(t *testing.T) {
	params := ParamsBinaryParty2.Compile()
	sk := tfhe.NewEncryptor(params.SubParams()).SecretKey
	sk2 := tfhe.NewEncryptor(params.SubParams()).SecretKey
	d := NewDecryptor(params, map[int]tfhe.SecretKey[uint64]{0: sk})
	c := d.SafeCopy()
	c.AddSecretKey(1, sk2)
	if d.PartyBitMap[1] {
		t.Error("the original claims the key of the copy")
	}
	d.DecryptLWE(NewLWECiphertext(params))
}
'''

//go:build go1.21

package pup

import (
	"fmt"
	"sort"
	"strings"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// Outcome is everything a transaction results in.
func Outcome(out *vmcommon.VMOutput, err error) string {
	if out == nil {
		return fmt.Sprintf("no output, error %v", err)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "error %v; %s %q gas %d refund %v\n data %x\n deleted %x touched %x\n", err, out.ReturnCode, out.ReturnMessage, out.GasRemaining, out.GasRefund,
		out.ReturnData, out.DeletedAccounts, out.TouchedAccounts)
	for _, l := range out.Logs {
		fmt.Fprintf(&b, " log %x %q %x %x\n", l.Address, l.Identifier, l.Topics, l.Data)
	}
	var keys []string
	for k := range out.OutputAccounts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		a := out.OutputAccounts[k]
		fmt.Fprintf(&b, " account %x (%x) nonce %d balance %v delta %v code %x meta %x deployer %x gas %d\n", k, a.Address, a.Nonce, a.Balance, a.BalanceDelta,
			tail(a.Code), a.CodeMetadata, a.CodeDeployerAddress, a.GasUsed)
		var sk []string
		for s := range a.StorageUpdates {
			sk = append(sk, s)
		}
		sort.Strings(sk)
		for _, s := range sk {
			fmt.Fprintf(&b, "  storage %x (%x) = %x\n", s, a.StorageUpdates[s].Offset, a.StorageUpdates[s].Data)
		}
		for _, o := range a.OutputTransfers {
			fmt.Fprintf(&b, "  transfer %v gas %d locked %d type %d from %x data %x\n", o.Value, o.GasLimit, o.GasLocked, o.CallType, o.SenderAddress, o.Data)
		}
	}
	return b.String()
}

func tail(b []byte) []byte {
	if len(b) > 8 {
		return append(append([]byte{}, b[len(b)-8:]...), byte(len(b)), byte(len(b)>>8))
	}
	return b
}

//go:build go1.21

package pup

import vmcommon "github.com/ElrondNetwork/elrond-vm-common"

// IsBuiltin tells protocol functions apart.
func (w *World) IsBuiltin(fn string) bool { return w.BuiltinNames[fn] }

// ErrUnused keeps the imports of the trimmed package in use.
type unused = vmcommon.VMOutput

// Package wasi_snapshot_preview1 stands in for wazero's.
package wasi_snapshot_preview1

import (
	"context"

	wazero "github.com/nanobus/iota/go/internal/verifsim/simwz"
	"github.com/tetratelabs/wazero/api"
)

const ModuleName = "wasi_snapshot_preview1"

func MustInstantiate(ctx context.Context, r wazero.Runtime) {}
func Instantiate(ctx context.Context, r wazero.Runtime) (api.Closer, error) {
	return r.NewHostModuleBuilder(ModuleName).Instantiate(ctx, r)
}

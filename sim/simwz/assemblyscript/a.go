// Package assemblyscript stands in for wazero's.
package assemblyscript

import (
	"context"

	wazero "github.com/nanobus/iota/go/internal/verifsim/simwz"
	"github.com/tetratelabs/wazero/api"
)

type FunctionExporter interface {
	WithAbortMessageDisabled() FunctionExporter
	WithTraceToStdout() FunctionExporter
	WithTraceToStderr() FunctionExporter
	ExportFunctions(wazero.HostModuleBuilder)
}
type fe struct{}

func NewFunctionExporter() FunctionExporter                 { return fe{} }
func (f fe) WithAbortMessageDisabled() FunctionExporter     { return f }
func (f fe) WithTraceToStdout() FunctionExporter            { return f }
func (f fe) WithTraceToStderr() FunctionExporter            { return f }
func (f fe) ExportFunctions(wazero.HostModuleBuilder)       {}
func MustInstantiate(ctx context.Context, r wazero.Runtime) {}
func Instantiate(ctx context.Context, r wazero.Runtime) (api.Closer, error) {
	return r.NewHostModuleBuilder("env").Instantiate(ctx, r)
}

// Package dfs stands in for fairOS' package dfs in the packages that start it:
// the constructor returns an instance over the simulated store.
package dfs

import (
	"context"

	real "github.com/fairdatasociety/fairOS-dfs/pkg/dfs"
)

type (
	API     = real.API
	Options = real.Options
)

var (
	ErrUserNotLoggedIn = real.ErrUserNotLoggedIn
	ErrPodNotOpen      = real.ErrPodNotOpen
)

// Make is called instead of the real constructor.
var Make func(ctx context.Context, opts *Options) (*API, error)

func NewDfsAPI(ctx context.Context, opts *Options) (*API, error) { return Make(ctx, opts) }

package zzverifspec

import (
	"context"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	"github.com/spacemonkeygo/monkit/v3/present"
)

// A trace of a function of any name with any argument.
func C24_SVG(scope, name, arg string, err error, panicked bool) {
	f := monkit.NewRegistry().ScopeNamed(scope).FuncNamed(name)
	ctx := context.Background()
	f.Task(&ctx, arg)
	s := monkit.SpanFromCtx(ctx)
	p := &paper{at: -1}
	e := present.SpansToSVG(p, []*collect.FinishedSpan{{Span: s, Finish: time.Now(), Err: err, Panicked: panicked}})
	assert(e == nil, "the trace is drawn")
}

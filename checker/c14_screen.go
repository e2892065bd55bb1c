package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C14", Rule: "effect analysis of the interactive mode's goroutines: only the goroutine that polls the screen's events draws on it, apart from the first paint before that goroutine is started; no goroutine writes to the terminal in any other way while the screen may be up; every prompt that asks for input was given the screen's reader and writer", Run: runC14})
}

const tcellScreen = "(github.com/gdamore/tcell.Screen)."

// drawing operations, as opposed to asking for a redraw, cursor control and shutting down.
var drawOps = map[string]bool{"SetContent": true, "SetCell": true, "Clear": true, "Fill": true, "Show": true, "Sync": true, "SetStyle": true, "CanDisplay": false}

// screenClient follows whether the screen is up.
type screenClient struct {
	NoClient
	prompts map[string]bool
	quiet   bool // the storage makes no warnings
}

func (s *screenClient) Ext(in *Interp, fr *Frame, ps *PState, c *ExtCall) ([]Outcome, bool) {
	if c.Name == tcellScreen+"Fini" {
		ps.st = ps.st.withoutFact("screen:up").clone()
	}
	if strings.HasSuffix(c.Name, "go-prompt.Prompt).Input") || strings.HasSuffix(c.Name, "go-prompt.Prompt).Run") {
		s.prompts[in.p.instrPos(c.Instr)] = true
		kinds := map[string]bool{}
		for _, l := range in.carriedAll(c.Args[0]) {
			t := in.typeAt(l.o, l.p)
			if t == nil || !in.isRepoType(deref(t)) {
				continue
			}
			for _, k := range []string{"ConsoleParser", "ConsoleWriter"} {
				it := in.p.lookupIface("github.com/c-bata/go-prompt", k)
				if it != nil && (types.Implements(t, it) || types.Implements(types.NewPointer(t), it)) {
					kinds[k] = true
				}
			}
		}
		for _, k := range []string{"ConsoleParser", "ConsoleWriter"} {
			if !kinds[k] {
				in.event(fr, ps, &Event{Kind: "rawprompt", Detail: "asks for input by a prompt without its own " + k}, c.Instr)
			}
		}
	}
	return nil, false
}

func (s *screenClient) Post(in *Interp, fr *Frame, ps *PState, c *ExtCall, outs []Outcome) []Outcome {
	if c.Name != tcellScreen+"Init" {
		return outs
	}
	var res []Outcome
	for _, o := range outs {
		res = append(res, Outcome{o.st.withFacts("screen:up").clone(), []*Val{nilVal}}, Outcome{o.st.clone(), []*Val{{nl: mayNonNil, b: 3}}})
	}
	return res
}

func (s *screenClient) Ambient(in *Interp, l Loc, t types.Type) *Val {
	if s.quiet && isNamed(t, "github.com/prometheus/prometheus/storage", "Warnings") {
		return nilVal
	}
	return nil
}

// noWarnings: no function of the repository gives the query engine warnings to pass on.
func noWarnings(p *Program) bool {
	for _, fn := range p.Funcs {
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if !isNamed(res.At(i).Type(), "github.com/prometheus/prometheus/storage", "Warnings") {
				continue
			}
			for _, b := range fn.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) && !isNilConst(ret.Results[i]) {
					return false
				}
			}
		}
	}
	return true
}

// toTerminal: output that may reach the terminal.
func (in *Interp) toTerminal(e *Event) bool {
	n := e.Detail
	switch {
	case strings.HasPrefix(n, "fmt.Print"), n == "print", strings.HasPrefix(n, "log.Print"), strings.HasPrefix(n, "log.Output"):
		return true
	case strings.HasPrefix(n, "fmt.Fprint"), n == "io.WriteString", n == "io.Copy", n == "(*os.File).Write", n == "(*os.File).WriteString", n == "(io.Writer).Write":
	default:
		return false
	}
	if len(e.Vals) == 0 {
		return true
	}
	// what is written to: buffers in memory don't count
	for _, l := range e.Vals[0].refs {
		if t := l.o.typ; t != nil && l.o.kind == objAlloc {
			if n := namedOf(t); n != nil && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "strings" || n.Obj().Pkg().Path() == "bytes") {
				continue
			}
		}
		return true
	}
	return len(e.Vals[0].refs) == 0
}

func runC14(p *Program, r *Report) {
	sc := &screenClient{prompts: map[string]bool{}, quiet: noWarnings(p)}
	in := modeHarness(p, r, sc, map[string]bool{"Continuous": true, "List": false})
	if in == nil {
		return
	}
	pollers := map[string]bool{}
	for _, e := range in.events {
		if e.Kind == "ext" && e.Detail == tcellScreen+"PollEvent" {
			pollers[e.Thread] = true
		}
	}
	draws, outputs := 0, 0
	for _, e := range in.events {
		switch e.Kind {
		case "rawprompt":
			r.violate("a prompt takes over the terminal", e.Pos, e.Fn+" "+e.Detail, "")
		case "ext":
			if strings.HasPrefix(e.Detail, tcellScreen) && drawOps[e.Detail[len(tcellScreen):]] {
				draws++
				if pollers[e.Thread] {
					continue
				}
				early := e.Thread == "main"
				for id := range pollers {
					if hasStr(e.Start, id) {
						early = false
					}
				}
				if !early {
					r.violate("the screen is drawn on from elsewhere", e.Pos, e.Detail+" in "+e.Fn, "by "+in.threads[e.Thread].name+", while the event loop may be drawing")
				}
				continue
			}
			if !in.toTerminal(e) {
				continue
			}
			outputs++
			if e.Thread == "main" && !hasStr(e.Facts, "screen:up") {
				continue
			}
			r.violate("output under the screen", e.Pos, e.Detail+" in "+e.Fn, "by "+in.threads[e.Thread].name+", while the screen may be up")
		}
	}
	if len(pollers) != 1 {
		r.undecided("the event loop", fmt.Sprintf("%d goroutines poll for events", len(pollers)))
	}
	r.atLeast("drawing_operations_examined", draws, 6)
	r.cover("output_operations_found", outputs)
	r.atLeast("prompts_examined", len(sc.prompts), 1)
	in.finish(r)
	if sc.quiet {
		r.assume("query results carry no warnings: they come from the storage only, and every function of the repository that returns warnings returns nil")
	}
}

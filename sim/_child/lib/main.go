// The library harness: executes a script of API calls inside the simulated
// process and reports the outcome of each.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"runtime"
	"strings"
	"sync"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/hcl"
	gtjson "github.com/coveooss/gotemplate/v3/json"
	"github.com/coveooss/gotemplate/v3/template"
	"github.com/coveooss/gotemplate/v3/utils"
	"github.com/coveooss/gotemplate/v3/yaml"
)

type rule struct {
	Name    string  `json:"name"`
	Result  *string `json:"result"`
	Append  string  `json:"append"`
	Changed bool    `json:"changed"`
	Err     string  `json:"err"`
	Swallow bool    `json:"swallow"`
}

type step struct {
	Op      string          `json:"op"`
	ID      string          `json:"id"`
	Folder  string          `json:"folder"`
	Delims  string          `json:"delims"`
	Type    string          `json:"type"`
	Text    string          `json:"text"`
	Src     string          `json:"src"`
	Tgt     string          `json:"tgt"`
	Options map[string]bool `json:"options"`
	Context map[string]any  `json:"context"`
	Subs    []string        `json:"subs"`
	Files   []string        `json:"files"`
	Handler []rule          `json:"handler"`
	NoHand  bool            `json:"nohandler"`
	Workers [][]step        `json:"workers"`
	Seed    uint64          `json:"seed"`
	Quantum int             `json:"quantum"`
}

type call struct {
	Name    string `json:"name"`
	Orig    string `json:"orig"`
	Result  string `json:"result"`
	Changed bool   `json:"changed"`
	Status  string `json:"status"`
}

type outcome struct {
	Op      string      `json:"op"`
	Result  string      `json:"result"`
	Err     string      `json:"err,omitempty"`
	Panic   string      `json:"panic,omitempty"`
	Files   []string    `json:"files,omitempty"`
	Calls   []call      `json:"calls,omitempty"`
	Fds     int         `json:"fds"`
	Conns   int         `json:"conns"`
	Gor     int         `json:"goroutines"`
	Workers [][]outcome `json:"workers,omitempty"`
	Points  int         `json:"points,omitempty"`
	Switch  int         `json:"switches,omitempty"`
	Stalls  int         `json:"stalls,omitempty"`
	Hash    uint64      `json:"hash,omitempty"`
	Dead    bool        `json:"dead,omitempty"`
}

var options = map[string]template.Options{
	"razor": template.Razor, "extension": template.Extension, "math": template.Math, "sprig": template.Sprig, "data": template.Data,
	"logging": template.Logging, "runtime": template.Runtime, "utils": template.Utils, "net": template.Net, "os": template.OS, "git": template.Git,
	"overwrite": template.Overwrite, "print": template.OutputStdout, "disabled": template.RenderingDisabled, "novalue": template.AcceptNoValue, "strict": template.StrictErrorCheck,
}

func body(r *http.Response) (string, error) {
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	return string(b), err
}

// env holds the instances of one goroutine.
type env map[string]*template.Template

func (e env) one(s *step) (o outcome) {
	o.Op = s.Op
	defer func() {
		if r := recover(); r != nil {
			o.Panic = fmt.Sprint(r)
		}
	}()
	t := e[s.ID]
	switch s.Op {
	case "type":
		switch s.Type {
		case "yaml":
			collections.SetListHelper(yaml.GenericListHelper)
			collections.SetDictionaryHelper(yaml.DictionaryHelper)
		case "hcl":
			collections.SetListHelper(hcl.GenericListHelper)
			collections.SetDictionaryHelper(hcl.DictionaryHelper)
		default:
			collections.SetListHelper(gtjson.GenericListHelper)
			collections.SetDictionaryHelper(gtjson.DictionaryHelper)
		}
	case "new":
		var set template.OptionsSet
		if s.Options != nil {
			set = template.DefaultOptions()
			for k, v := range s.Options {
				set[options[k]] = v
			}
		}
		var ctx any
		if s.Context != nil {
			ctx = collections.AsDictionary(s.Context)
		}
		n, err := template.NewTemplate(s.Folder, ctx, s.Delims, set, s.Subs...)
		if err != nil {
			o.Err = err.Error()
			return
		}
		n.TempFolder("/tmp")
		n.AddFunctions(map[string]any{"readBody": body}, "Harness", template.FuncOptions{})
		e[s.ID] = n
	case "content":
		res, err := t.ProcessContent(s.Text, s.Src)
		o.Result = res
		if err != nil {
			o.Err = err.Error()
		}
	case "templates":
		var h template.CustomHandler
		if !s.NoHand {
			h = func(name, original string, result *string, changed bool, status error) (bool, error) {
				c := call{Name: name, Orig: original, Result: *result, Changed: changed}
				if status != nil {
					c.Status = status.Error()
				}
				o.Calls = append(o.Calls, c)
				for _, r := range s.Handler {
					if r.Name != name && r.Name != "*" {
						continue
					}
					if r.Result != nil {
						*result = *r.Result
					}
					*result += r.Append
					if r.Err != "" {
						return r.Changed, fmt.Errorf("%s", r.Err)
					}
					if r.Swallow {
						return r.Changed, nil
					}
					return r.Changed, status
				}
				return false, status
			}
		}
		files, err := t.ProcessTemplatesWithHandler(s.Src, s.Tgt, h, s.Files...)
		o.Files = files
		if err != nil {
			o.Err = err.Error()
		}
	case "template":
		file, err := t.ProcessTemplate(s.Files[0], s.Src, s.Tgt)
		o.Files = []string{file}
		if err != nil {
			o.Err = err.Error()
		}
	case "option":
		for k, v := range s.Options {
			t.SetOption(options[k], v)
		}
	case "add":
		for k, v := range s.Context {
			t.Add(k, v)
		}
	case "dump":
		var b strings.Builder
		ctx := t.Context()
		js, err := json.Marshal(ctx)
		fmt.Fprintf(&b, "%s %v", js, err)
		fmt.Fprintf(&b, " delims %s %s %s", t.LeftDelim(), t.RightDelim(), t.RazorDelim())
		o.Result = b.String()
	case "print": // functions and templates listings
		t.PrintFunctions(true, true, false)
		t.PrintTemplates(true, true)
	case "find":
		files, err := utils.FindFiles(s.Folder, true, false, s.Files...)
		o.Files = files
		if err != nil {
			o.Err = err.Error()
		}
	case "mark":
		os.SimMark(s.Text)
	default:
		o.Panic = "unknown operation " + s.Op
	}
	return
}

func (e env) run(s *step) outcome {
	o := e.one(s)
	// goroutines of the HTTP client finish their bookkeeping
	for i := 0; i < 40; i++ {
		runtime.Gosched()
	}
	http.DefaultTransport.(*http.Transport).CloseIdleConnections()
	for i := 0; i < 40; i++ {
		runtime.Gosched()
	}
	o.Fds, o.Conns, o.Gor = os.SimOpenFds(), os.SimOpenConns(), runtime.NumGoroutine()
	return o
}

func parallel(s *step) (o outcome) {
	o.Op = s.Op
	n := len(s.Workers)
	o.Workers = make([][]outcome, n)
	os.SimSchedStart(n, s.Seed, s.Quantum)
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func(w int) {
			os.SimSchedEnter(w)
			e := env{}
			for i := range s.Workers[w] {
				if s.Workers[w][i].Op == "barrier" {
					os.SimSchedBarrier(w)
					o.Workers[w] = append(o.Workers[w], outcome{Op: "barrier"})
					continue
				}
				o.Workers[w] = append(o.Workers[w], e.one(&s.Workers[w][i]))
			}
			os.SimSchedExit(w)
			wg.Done()
		}(w)
	}
	wg.Wait()
	o.Points, o.Switch, o.Stalls, o.Hash, o.Dead = os.SimSchedInfo()
	return
}

func main() {
	var script struct {
		Steps []step `json:"steps"`
	}
	if err := json.Unmarshal(os.SimBlob(), &script); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(120)
	}
	e := env{}
	(&step{Op: "type"}).init(e)
	for i := range script.Steps {
		s := &script.Steps[i]
		var o outcome
		if s.Op == "par" {
			o = parallel(s)
		} else {
			o = e.run(s)
		}
		b, err := json.Marshal(o)
		if err != nil {
			panic(err)
		}
		os.SimReport(b)
	}
	os.Exit(0)
}

func (s *step) init(e env) { e.one(s) }

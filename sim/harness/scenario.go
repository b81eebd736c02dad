//go:build go1.21

package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"VERIFMOD/verifsim"
)

// Text is document content; it survives JSON even when damage has made it
// invalid UTF-8.
type Text string

func (t Text) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(t)) && !strings.ContainsRune(string(t), 0xfffd) {
		return json.Marshal("t:" + string(t))
	}
	return json.Marshal("b:" + base64.StdEncoding.EncodeToString([]byte(t)))
}

func (t *Text) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	switch {
	case strings.HasPrefix(s, "t:"):
		*t = Text(s[2:])
	case strings.HasPrefix(s, "b:"):
		d, err := base64.StdEncoding.DecodeString(s[2:])
		if err != nil {
			return err
		}
		*t = Text(d)
	default:
		return fmt.Errorf("bad text")
	}
	return nil
}

// Val is one typed cell of a row.
type Val struct {
	K string `json:"k"`           // f64 f32 i64 i32 i u64 u8 s b nil cb
	V string `json:"v,omitempty"` // its text
	// a value with behaviour: its String method yields, panics, ends its
	// goroutine, stalls or scores again before it returns V
	Act string `json:"act,omitempty"` // yield panic goexit stall reenter
	M   int    `json:"m,omitempty"`
	R   int    `json:"r,omitempty"`
	At  int    `json:"at,omitempty"` // only the At-th call misbehaves; 0 = every call
}

type Field struct {
	N string `json:"n"`
	V Val    `json:"v"`
}

type RowSpec struct {
	Nil bool    `json:"nil,omitempty"`
	F   []Field `json:"f,omitempty"`
}

// Plan describes how a byte source behaves.
type Plan struct {
	Seed    uint64  `json:"seed,omitempty"`
	Min     int     `json:"min,omitempty"` // chunk sizes
	Max     int     `json:"max,omitempty"`
	Zero    float64 `json:"zero,omitempty"`    // chance of an empty read
	DataEOF bool    `json:"dataeof,omitempty"` // last bytes come together with the end
	Byte    bool    `json:"byte,omitempty"`    // the source is an io.ByteReader
	Stall   float64 `json:"stall,omitempty"`
	Fault   string  `json:"fault,omitempty"` // err eof unexpected panic goexit dataerr
	At      int     `json:"at,omitempty"`
	Err     int     `json:"err,omitempty"` // which error it fails with
}

const (
	fShared   = 1 << iota // use the shared row object
	fScribIn              // overwrite the private row after the call
	fScribOut             // overwrite the returned row
	fSub                  // run in a goroutine of its own
	fBuf                  // the caller keeps one row and refills it for every call
)

// Op is one operation of a task.
type Op struct {
	K    string `json:"k"` // load build eval verify validate compile arr sleep
	D    int    `json:"d,omitempty"`
	M    int    `json:"m,omitempty"`
	R    int    `json:"r,omitempty"`
	A    int    `json:"a,omitempty"`
	S    string `json:"s,omitempty"`
	F    int    `json:"f,omitempty"`
	N    int    `json:"n,omitempty"`
	Rep  int    `json:"rep,omitempty"` // repeat the call this often
	Plan *Plan  `json:"plan,omitempty"`
}

type DocSpec struct {
	XML  Text   `json:"xml"`
	Note string `json:"note,omitempty"`
	Root string `json:"root,omitempty"` // the model type of a document that is not a whole one
}

// Sim is the environment and schedule of a run.
type Sim struct {
	Mode      string             `json:"mode"`
	Seed      uint64             `json:"seed"`
	P         float64            `json:"p,omitempty"`
	Depth     int                `json:"depth,omitempty"`
	Horizon   int64              `json:"horizon,omitempty"`
	StepLimit int64              `json:"steps,omitempty"`
	MapMode   int                `json:"mapmode,omitempty"`
	MapSeed   uint64             `json:"mapseed,omitempty"`
	PoolDrop  float64            `json:"pooldrop,omitempty"`
	ClockJump float64            `json:"clockjump,omitempty"`
	RandSeed  uint64             `json:"randseed,omitempty"`
	ClockBase int64              `json:"clockbase,omitempty"`
	Serial    string             `json:"serial,omitempty"` // mode of the phases with one caller: it matters to goroutines of the library
	Pre       []verifsim.Preempt `json:"pre,omitempty"`
}

func (s Sim) config() verifsim.Config {
	return verifsim.Config{Seed: s.Seed, Mode: s.Mode, P: s.P, Depth: s.Depth, Horizon: s.Horizon, StepLimit: s.StepLimit,
		Pre: s.Pre, MapMode: s.MapMode, MapSeed: s.MapSeed, PoolDrop: s.PoolDrop, ClockJump: s.ClockJump,
		RandSeed: s.RandSeed, ClockBase: s.ClockBase}
}

// Scenario is one simulated run, complete: replaying it needs nothing else.
type Scenario struct {
	Prop  string    `json:"prop"`
	Run   int64     `json:"run"`
	Docs  []DocSpec `json:"docs"`
	Rows  []RowSpec `json:"rows,omitempty"`
	NDoc  int       `json:"ndoc"`   // document slots
	NMod  int       `json:"nmodel"` // model slots
	Setup []Op      `json:"setup,omitempty"`
	Tasks [][]Op    `json:"tasks,omitempty"`
	Final []Op      `json:"final,omitempty"`
	Sim   Sim       `json:"sim"`
	Envs  []Sim     `json:"envs,omitempty"`
	Spans []Span    `json:"spans,omitempty"`
	Alts  []string  `json:"alts,omitempty"`
	Loops int       `json:"loops,omitempty"`
	// growth: texts of document 0 that are different in every lap
	Vary []string `json:"vary,omitempty"`
	// growth: many laps, for what is kept only now and then
	Sparse bool `json:"sparse,omitempty"`
	// what the process did before: runs that went before this one in the same process
	Before []*Scenario `json:"before,omitempty"`
	Kind   string      `json:"violation,omitempty"`
	Note   string      `json:"note,omitempty"`
	Trace  []string    `json:"trace,omitempty"`
}

func (v Val) make(h *Hist, t int) any {
	f, _ := strconv.ParseFloat(v.V, 64)
	i, _ := strconv.ParseInt(v.V, 10, 64)
	switch v.K {
	case "f64":
		return f
	case "f32":
		return float32(f)
	case "i64":
		return i
	case "i32":
		return int32(i)
	case "i":
		return int(i)
	case "u64":
		return uint64(i)
	case "u8":
		return uint8(i)
	case "s":
		return v.V
	case "b":
		return v.V == "true"
	case "cb":
		return &callback{v: v, h: h}
	}
	return nil
}

func showVal(x any) string {
	switch v := x.(type) {
	case nil:
		return "nil"
	case float64:
		if math.IsNaN(v) {
			return "f64:NaN"
		}
		return "f64:" + strconv.FormatUint(math.Float64bits(v), 16) + "(" + strconv.FormatFloat(v, 'g', -1, 64) + ")"
	case float32:
		if v != v {
			return "f32:NaN"
		}
		return "f32:" + strconv.FormatUint(uint64(math.Float32bits(v)), 16)
	case string:
		return "s:" + strconv.Quote(v)
	case bool:
		return "b:" + strconv.FormatBool(v)
	case *callback:
		return "cb:" + strconv.Quote(v.v.V)
	}
	return fmt.Sprintf("%T:%v", x, x)
}

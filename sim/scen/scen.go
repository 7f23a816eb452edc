// Package scen defines what the orchestrator tells a worker process to simulate, and what the worker
// reports.
package scen

import (
	"verif.local/sim/yield"
)

// Op is one operation in a history
type Op struct {
	K      string `json:"k"`           // kind
	I      int    `json:"i,omitempty"` // instance the operation uses
	R      int    `json:"r,omitempty"` // register that holds or receives a value
	Shared bool   `json:"shared,omitempty"`
	Src    []byte `json:"src,omitempty"`
	File   string `json:"file,omitempty"`
	Single bool   `json:"single,omitempty"`
	Opts   []int  `json:"opts,omitempty"`
	Val    string `json:"val,omitempty"` // kind of validator, or kind of value
	Strict int    `json:"strict,omitempty"`
	Code   string `json:"code,omitempty"`
	Sev    int    `json:"sev,omitempty"`
	At     int    `json:"at,omitempty"`  // where a fault hits, or which node is meant
	How    string `json:"how,omitempty"` // kind of fault
	Len    int    `json:"len,omitempty"`
	N      int    `json:"n,omitempty"`
	Rep    int    `json:"rep,omitempty"` // this often before it counts
}

// Scenario is a complete simulated run
type Scenario struct {
	Mode   string     `json:"mode"` // "history", "batch", "cuts"
	Setup  []Op       `json:"setup,omitempty"`
	Tasks  [][]Op     `json:"tasks,omitempty"`
	Final  []Op       `json:"final,omitempty"`
	Plan   yield.Plan `json:"plan"`
	Full   bool       `json:"full,omitempty"` // report full texts
	Cover  int        `json:"cover,omitempty"`
	Budget int64      `json:"budget,omitempty"` // steps per operation (history)
	Batch  *Batch     `json:"batch,omitempty"`
	Cli    []CliJob   `json:"cli,omitempty"`
	Sched  bool       `json:"sched,omitempty"` // sources are processed by a task (digest)
	Reuse  bool       `json:"reuse,omitempty"` // the same instances are used in all repetitions (retain)
	Phases []int      `json:"phases,omitempty"`
}

// Batch is a sequence of independent small runs that share a process
type Batch struct {
	Seed  uint64 `json:"seed"`
	From  uint64 `json:"from"`
	Count int    `json:"count"`
	Max   int    `json:"max,omitempty"`   // faults per source
	Gap   int    `json:"gap,omitempty"`   // distance between cuts, 1 = all
	Items []Item `json:"items,omitempty"` // explicit sources
	Keep  int    `json:"keep,omitempty"`  // stop after this number of failures
	WallS int    `json:"wall,omitempty"`
	Pool  []Item `json:"pool,omitempty"`  // sources to damage in addition to generated ones
	Known []byte `json:"known,omitempty"` // pairs of sites that are known
	Guide bool   `json:"guide,omitempty"` // report sources that reach new pairs
}

// CliJob is a fault free run of the parse command
type CliJob struct {
	Src    []byte `json:"src"`
	File   string `json:"file"`
	Json   bool   `json:"json,omitempty"`
	Only   bool   `json:"only,omitempty"`
	Strict string `json:"strict,omitempty"`

	Tasks    bool `json:"tasks,omitempty"`
	Workflow bool `json:"workflow,omitempty"`
}

// CliOut is what using the library like the parse command yields
type CliOut struct {
	Exit   int      `json:"exit"`
	Stdout string   `json:"stdout"` // text, or a JSON document
	Stderr []string `json:"stderr,omitempty"`
}

// Item is one explicit source in a batch
type Item struct {
	Src   []byte `json:"src"`
	Opts  []int  `json:"opts,omitempty"`
	File  string `json:"file"`
	One   bool   `json:"one,omitempty"`
	Base  []byte `json:"base,omitempty"`  // what the source was before it was cut
	Stmts int    `json:"stmts,omitempty"` // statements of base that are complete in src
	Exact bool   `json:"exact,omitempty"` // nothing follows these statements
	Open  string `json:"open,omitempty"`  // construct that is open where src ends
	Zero  bool   `json:"zero,omitempty"`  // tail consists of NUL
	Spans []int  `json:"spans,omitempty"` // start of each complete statement, and of what follows
}

// Out is the outcome of an operation
type Out struct {
	D string `json:"d"`           // digest of the outcome
	T string `json:"t,omitempty"` // the outcome, when asked for
	C string `json:"c,omitempty"` // class: ok, error, panic, limit
	S int64  `json:"s,omitempty"` // steps
}

// Failure found in a batch
type Failure struct {
	N    uint64   `json:"n"`
	Kind string   `json:"kind"` // violation class
	Text string   `json:"text"`
	Item Item     `json:"item"`
	Log  []string `json:"log,omitempty"` // faults
}

// Report of a worker
type Report struct {
	Done     bool           `json:"done"`
	Setup    []Out          `json:"setup,omitempty"`
	Tasks    [][]Out        `json:"tasks,omitempty"`
	Final    []Out          `json:"final,omitempty"`
	Outcome  *yield.Outcome `json:"outcome,omitempty"`
	Races    int            `json:"races,omitempty"`
	Cover    []byte         `json:"cover,omitempty"`
	Steps    int64          `json:"steps,omitempty"`
	Failures []Failure      `json:"failures,omitempty"`
	Counts   map[string]int `json:"counts,omitempty"`
	Digests  []string       `json:"digests,omitempty"`
	Profiles []uint64       `json:"profiles,omitempty"`
	Sum      string         `json:"sum,omitempty"` // digest over everything that a batch did
	Slowest  float64        `json:"slowest,omitempty"`
	SlowItem *Item          `json:"slowItem,omitempty"`
	Samples  []string       `json:"samples,omitempty"`
	Fresh    []Item         `json:"fresh,omitempty"` // sources that reached new pairs of sites
	Edges    []byte         `json:"edges,omitempty"`
	Cli      []CliOut       `json:"cli,omitempty"`
	Levels   []Level        `json:"levels,omitempty"`
}

// Level is what is alive after a number of repetitions
type Level struct {
	N          int   `json:"n"`
	Objects    int64 `json:"objects"`
	Bytes      int64 `json:"bytes"`
	Goroutines int   `json:"goroutines"`
	Files      int   `json:"files"`
}

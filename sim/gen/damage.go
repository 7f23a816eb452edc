package gen

import (
	"bytes"
	"strings"
)

var tokens = strings.Fields("{ } ( ) [ ] | ? : ; , . $ $1 $x @ @@ @( ) / \\ \" ' # /* */ <% %> <%= -%> => +> -> <| |> <<| |>> - 0x 0 1 1.5 if unless case class type function plan site node default undef action workflow resource returns parameters each times notice ${ ${{ \x00 \xff ` ~ ! * inherits produces Foo Foo:: ::")

// Fault kinds of the simulated disk
var DiskFaults = []string{"truncate", "zerotail", "zeroblock", "torn", "dup", "lose", "swap", "misdirect", "bitflip", "stale", "concat", "debris", "echo", "none"}

// Damage returns what the simulated disk returns for a file with the given content, and the faults
// that were injected
func Damage(r *Rand, b []byte, other func() []byte, max int) ([]byte, []string) {
	var fs []string
	n := 1 + r.Intn(max)
	for i := 0; i < n; i++ {
		var f string
		b, f = damage1(r, b, other)
		if f != "none" {
			fs = append(fs, f)
		}
	}
	return b, fs
}

func blk(r *Rand, b []byte) (int, int) {
	p := r.Intn(len(b) + 1)
	// Small blocks dominate: sectors of the simulated disk are of the size of tokens
	m := len(b) + 1 - p
	if !r.P(4) && m > 16 {
		m = 16
	}
	return p, p + r.Intn(m)
}

func cat(bs ...[]byte) []byte { return bytes.Join(bs, nil) }

func damage1(r *Rand, b []byte, other func() []byte) ([]byte, string) {
	if len(b) == 0 {
		b = other()
	}
	p, q := blk(r, b)
	switch f := DiskFaults[r.Intn(len(DiskFaults))]; f {
	case "truncate":
		return cat(b[:p]), f
	case "zerotail":
		return cat(b[:p], make([]byte, len(b)-p)), f
	case "zeroblock":
		return cat(b[:p], make([]byte, q-p), b[q:]), f
	case "torn":
		// The first part of the new version reached the disk, the rest is that of the old version
		o := other()
		c := p
		if c > len(o) {
			c = r.Intn(len(o) + 1)
		}
		return cat(b[:p], o[c:]), f
	case "dup":
		return cat(b[:q], b[p:q], b[q:]), f
	case "lose":
		return cat(b[:p], b[q:]), f
	case "swap":
		s, t := blk(r, b)
		if s < q {
			if t > p {
				return cat(b[:p], b[q:]), "lose"
			}
			p, q, s, t = s, t, p, q
		}
		return cat(b[:p], b[s:t], b[q:s], b[p:q], b[t:]), f
	case "misdirect":
		o := other()
		s, t := blk(r, o)
		return cat(b[:p], o[s:t], b[q:]), f
	case "stale":
		// A block of another file in the place of a block of equal size
		o := other()
		s := r.Intn(len(o) + 1)
		t := s + q - p
		if t > len(o) {
			t = len(o)
		}
		return cat(b[:p], o[s:t], b[q:]), f
	case "bitflip":
		x := cat(b)
		if len(x) > 0 {
			for k := 1 + r.Intn(2); k > 0; k-- {
				x[r.Intn(len(x))] ^= 1 << uint(r.Intn(8))
			}
		}
		return x, f
	case "concat":
		return cat(b[:p], other(), b[p:]), f
	case "echo":
		// The same block again and again
		n := 2 + r.Intn(40)
		if r.P(4) {
			n = 40 + r.Intn(200)
		}
		if m := 3000 / (q - p + 1); n > m {
			n = m
		}
		return cat(b[:p], bytes.Repeat(b[p:q], n), b[q:]), f
	case "debris":
		return cat(b[:p], []byte(tokens[r.Intn(len(tokens))]), b[p:]), f
	}
	return b, "none"
}

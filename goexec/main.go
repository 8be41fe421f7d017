// Executor for the Go binding: one JSON case per line in, one JSON result per line out. It decides nothing.
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"unicode/utf8"

	sds "github.com/DataDog/dd-sensitive-data-scanner/sds-go/go"
)

type Entry struct {
	K  []rune `json:"k"`
	KB []int  `json:"kb"`
	V  *Node  `json:"v"`
}
type Node struct {
	T string  `json:"t"`
	S []rune  `json:"s,omitempty"`
	B []int   `json:"b,omitempty"`
	L []*Node `json:"l,omitempty"`
	M []Entry `json:"m,omitempty"`
}
type Kw struct {
	La  uint32   `json:"la"`
	Inc [][]rune `json:"inc"`
	Exc [][]rune `json:"exc"`
}
type Act struct {
	T string `json:"t"`
	R []rune `json:"r"`
	N uint32 `json:"n"`
}
type Rule struct {
	Pat []rune `json:"pat"`
	Act Act    `json:"act"`
	Kw  *Kw    `json:"kw"`
	Val string `json:"val"`
}
type Case struct {
	Id    int     `json:"id"`
	Op    string  `json:"op"`
	Rules []Rule  `json:"rules"`
	Trees []*Node `json:"trees"`
}

func raw(l []int) string {
	b := make([]byte, len(l))
	for i, x := range l {
		b[i] = byte(x)
	}
	return string(b)
}

func text(n *Node) string {
	if n.B != nil {
		return raw(n.B)
	}
	return string(n.S)
}

func build(n *Node) interface{} {
	switch n.T {
	case "s":
		return text(n)
	case "l":
		l := make([]interface{}, len(n.L))
		for i, c := range n.L {
			l[i] = build(c)
		}
		return l
	case "m":
		m := map[string]interface{}{}
		for _, e := range n.M {
			if e.KB != nil {
				m[raw(e.KB)] = build(e.V)
			} else {
				m[string(e.K)] = build(e.V)
			}
		}
		return m
	case "n":
		return 12
	default:
		return nil
	}
}

// strings of the result: code points when valid UTF-8, else bytes
func show(s string) map[string]interface{} {
	if utf8.ValidString(s) {
		r := []rune(s)
		if r == nil {
			r = []rune{}
		}
		return map[string]interface{}{"t": "s", "s": r}
	}
	b := []int{}
	for i := 0; i < len(s); i++ {
		b = append(b, int(s[i]))
	}
	return map[string]interface{}{"t": "s", "b": b}
}

func runes(s string) []rune {
	r := []rune(s)
	if r == nil {
		r = []rune{}
	}
	return r
}

func back(v interface{}) map[string]interface{} {
	switch v := v.(type) {
	case string:
		return show(v)
	case []interface{}:
		l := []interface{}{}
		for _, c := range v {
			l = append(l, back(c))
		}
		return map[string]interface{}{"t": "l", "l": l}
	case map[string]interface{}:
		m := []interface{}{}
		for k, c := range v {
			if utf8.ValidString(k) {
				m = append(m, map[string]interface{}{"k": runes(k), "v": back(c)})
			} else {
				m = append(m, map[string]interface{}{"kb": bytesOf([]byte(k)), "v": back(c)})
			}
		}
		return map[string]interface{}{"t": "m", "m": m}
	case int:
		return map[string]interface{}{"t": "n", "s": runes(fmt.Sprint(v))}
	default:
		return map[string]interface{}{"t": "z"}
	}
}

func strs(l [][]rune) []string {
	out := []string{}
	for _, r := range l {
		out = append(out, string(r))
	}
	return out
}

func bytesOf(b []byte) []int {
	out := []int{}
	for _, x := range b {
		out = append(out, int(x))
	}
	return out
}

func run(c *Case) (out map[string]interface{}) {
	defer func() {
		if r := recover(); r != nil {
			out = map[string]interface{}{"panic": fmt.Sprint(r)}
		}
	}()
	rules := []sds.RuleConfig{}
	for _, r := range c.Rules {
		var ex sds.ExtraConfig
		if r.Kw != nil {
			ex.ProximityKeywords = sds.CreateProximityKeywordsConfig(r.Kw.La, strs(r.Kw.Inc), strs(r.Kw.Exc))
		}
		switch r.Val {
		case "luhn":
			ex.SecondaryValidator = sds.LuhnChecksum
		case "chinese":
			ex.SecondaryValidator = sds.ChineseIdChecksum
		}
		switch r.Act.T {
		case "redact":
			rules = append(rules, sds.NewRedactingRule("r", string(r.Pat), string(r.Act.R), ex))
		case "hash":
			rules = append(rules, sds.NewHashRule("h", string(r.Pat), ex))
		case "first":
			rules = append(rules, sds.NewPartialRedactRule("f", string(r.Pat), r.Act.N, sds.FirstCharacters, ex))
		case "last":
			rules = append(rules, sds.NewPartialRedactRule("l", string(r.Pat), r.Act.N, sds.LastCharacters, ex))
		default:
			rules = append(rules, sds.NewMatchingRule("m", string(r.Pat), ex))
		}
	}
	scanner, err := sds.CreateScanner(rules)
	if err != nil {
		kind := "other"
		switch {
		case errors.Is(err, sds.ErrInvalidRegex):
			kind = "regex"
		case errors.Is(err, sds.ErrInvalidKeywords):
			kind = "keywords"
		case errors.Is(err, sds.ErrInvalidMatchAction):
			kind = "action"
		}
		return map[string]interface{}{"build": kind, "nil": scanner == nil}
	}
	scans := []interface{}{}
	for _, t := range c.Trees {
		var res sds.ScanResult
		var after interface{}
		if t.T == "s" {
			in := []byte(text(t))
			keep := string(in)
			res, err = scanner.Scan(in)
			after = keep
			if string(in) != keep {
				return map[string]interface{}{"panic": "the caller's bytes were changed"}
			}
		} else {
			m := build(t).(map[string]interface{})
			res, err = scanner.ScanEventsMap(m)
			after = m
		}
		ms := []interface{}{}
		for _, m := range res.Matches {
			ms = append(ms, map[string]interface{}{"rule": m.RuleIdx, "path": runes(m.Path), "rt": string(m.ReplacementType),
				"start": m.StartIndex, "end": m.EndIndexExclusive, "shift": m.ShiftOffset})
		}
		scans = append(scans, map[string]interface{}{"err": err != nil, "mutated": res.Mutated, "event": bytesOf(res.Event),
			"tree": back(after), "matches": ms})
	}
	scanner.Delete()
	return map[string]interface{}{"build": "ok", "scans": scans}
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			var c Case
			if e := json.Unmarshal(line, &c); e != nil {
				panic(e)
			}
			b, e := json.Marshal(map[string]interface{}{"id": c.Id, "out": run(&c)})
			if e != nil {
				panic(e)
			}
			w.Write(b)
			w.WriteByte('\n')
			w.Flush()
		}
		if err != nil {
			return
		}
	}
}

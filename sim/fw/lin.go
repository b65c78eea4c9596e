package fw

import (
	"fmt"
	"sort"
)

// HOp is one operation of a history: Call and Ret are global sequence numbers; Ret==0 means it never returned.
type HOp struct {
	Call, Ret uint64
	Who       string
	In, Out   any
}

func (o HOp) String() string {
	if o.Ret == 0 {
		return fmt.Sprintf("[%d-?] %s %v", o.Call, o.Who, o.In)
	}
	return fmt.Sprintf("[%d-%d] %s %v -> %v", o.Call, o.Ret, o.Who, o.In, o.Out)
}

// Model is a sequential specification. Next returns the possible states after op with its recorded result (none: not allowed
// here). State keys must identify states.
type Model[S any] struct {
	Init S
	Next func(s S, o *HOp) []S
	Key  func(s S) string
}

// Linearizable searches a legal sequential order (Wing & Gong with memoisation). decided is false when the budget ran out.
func Linearizable[S any](m Model[S], hist []HOp, budget int) (ok, decided bool) {
	ops := append([]HOp(nil), hist...)
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
	n := len(ops)
	if n > 4096 {
		return true, false
	}
	done := make([]byte, (n+7)/8)
	seen := map[string]bool{}
	left := 0
	for i := range ops {
		if ops[i].Ret != 0 {
			left++
		}
	}
	var rec func(s S, left int) (bool, bool)
	rec = func(s S, left int) (bool, bool) {
		if left == 0 {
			return true, true
		}
		k := string(done) + "|" + m.Key(s)
		if seen[k] {
			return false, true
		}
		budget--
		if budget < 0 {
			return false, false
		}
		// earliest return among the pending ones bounds the candidates
		minRet := ^uint64(0)
		for i := 0; i < n; i++ {
			if done[i>>3]&(1<<(i&7)) == 0 && ops[i].Ret != 0 && ops[i].Ret < minRet {
				minRet = ops[i].Ret
			}
		}
		for i := 0; i < n; i++ {
			if ops[i].Call > minRet {
				break
			}
			if done[i>>3]&(1<<(i&7)) != 0 {
				continue
			}
			for _, t := range m.Next(s, &ops[i]) {
				done[i>>3] |= 1 << (i & 7)
				l := left
				if ops[i].Ret != 0 {
					l--
				}
				r, d := rec(t, l)
				done[i>>3] &^= 1 << (i & 7)
				if r || !d {
					return r, d
				}
			}
		}
		seen[k] = true
		return false, true
	}
	return rec(m.Init, left)
}

// HistText renders a history.
func HistText(h []HOp) string {
	s := ""
	for _, o := range h {
		s += o.String() + "\n"
	}
	return s
}

package engine

import (
	"fmt"

	"pgregory.net/rapid"
)

// SeqCase is cases run one after the other in one process.
type SeqCase[T any] struct {
	Items []T `json:"items"`
}

func (c SeqCase[T]) Key() uint64 {
	h := uint64(len(c.Items))
	for _, it := range c.Items {
		if k, ok := any(it).(Keyer); ok {
			h = mix(h ^ k.Key())
		} else {
			h = fnv(mustJSON(it), h)
		}
	}
	return h
}

// InSequence checks s on short sequences of cases that resemble each other
// (made by vary from an earlier one, or repeated), so that an answer that
// depends on the calls before it is seen. Cases a known finding covers count as
// passed.
func InSequence[T any](s *Sub[T], vary func(*rapid.T, T) T, quick, thor int) *Sub[SeqCase[T]] {
	return &Sub[SeqCase[T]]{
		Name: s.Name + "-in-sequence", Quick: quick, Thor: thor, No32: true,
		Gen: func(t *rapid.T) SeqCase[T] {
			c := SeqCase[T]{[]T{s.Gen(t)}}
			for i := rapid.IntRange(1, 5).Draw(t, "more"); i > 0; i-- {
				old := c.Items[rapid.IntRange(0, len(c.Items)-1).Draw(t, "old")]
				switch rapid.IntRange(0, 7).Draw(t, "next") {
				case 0, 1, 2, 3, 4:
					old = vary(t, old)
				case 5:
					old = s.Gen(t)
				}
				c.Items = append(c.Items, old)
			}
			return c
		},
		Run: func(c SeqCase[T]) Outcome {
			o := Outcome{Class: fmt.Sprintf("length-%d", len(c.Items))}
			for i, it := range c.Items {
				r := s.guarded(it)
				if r.Err != "" && r.Known == "" {
					o.Err = fmt.Sprintf("case %d of the sequence: %s", i+1, r.Err)
					return o
				}
				o.Nontrivial = o.Nontrivial || r.Nontrivial
			}
			o.Err = lookBack(20)
			return o
		},
	}
}

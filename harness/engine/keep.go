package engine

import (
	"fmt"
	"math/big"
)

// Results that callers of the code under test hold on to: the last few hundred
// of this process are looked at again when they leave the list, the newest ones
// after every case, and all of them at the end of a sequence and of a replay.

type keptText struct{ got, want string }

type keptBig struct{ x, was *big.Float }

var kept struct {
	texts [700]keptText
	bigs  [700]keptBig
	nt    int
	nb    int
	msg   string
}

func (k *keptText) changed() string {
	if k.got == k.want {
		return ""
	}
	return fmt.Sprintf("the text %q, returned by an earlier call and still in use, has become %q", k.want, k.got)
}

func (k *keptBig) changed() string {
	x, y := k.x, k.was
	if x == nil || x.Prec() == y.Prec() && x.Mode() == y.Mode() && x.Acc() == y.Acc() && x.Signbit() == y.Signbit() && x.IsInf() == y.IsInf() && x.Cmp(y) == 0 {
		return ""
	}
	return fmt.Sprintf("the big float %s (precision %d, %v), returned by an earlier call and still in use, has become %s (precision %d, %v)",
		y.Text('p', 0), y.Prec(), y.Mode(), x.Text('p', 0), x.Prec(), x.Mode())
}

// KeepText notes a text a call has returned, with an independent copy of it.
func KeepText(got, want string) {
	k := &kept.texts[kept.nt%len(kept.texts)]
	if m := k.changed(); m != "" {
		kept.msg = m
	}
	*k = keptText{got, want}
	kept.nt++
}

// KeepBig notes a big float a call has returned; nobody may change it.
func KeepBig(x *big.Float) {
	k := &kept.bigs[kept.nb%len(kept.bigs)]
	if m := k.changed(); m != "" {
		kept.msg = m
	}
	*k = keptBig{x, new(big.Float).Copy(x)}
	kept.nb++
}

// lookBack looks at the n results of each kind that were kept last, and at
// what has left the list since. The list is emptied when one has changed.
func lookBack(n int) string {
	msg := kept.msg
	for i := kept.nt - 1; i >= 0 && i >= kept.nt-n; i-- {
		if m := kept.texts[i%len(kept.texts)].changed(); m != "" {
			msg = m
		}
	}
	for i := kept.nb - 1; i >= 0 && i >= kept.nb-n; i-- {
		if m := kept.bigs[i%len(kept.bigs)].changed(); m != "" {
			msg = m
		}
	}
	kept.msg = ""
	if msg != "" {
		kept.texts, kept.bigs, kept.nt, kept.nb = [700]keptText{}, [700]keptBig{}, 0, 0
	}
	return msg
}

// KeptAll looks at everything that is kept.
func KeptAll() string { return lookBack(700) }

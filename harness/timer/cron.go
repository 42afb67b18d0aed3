package timer

import (
	"fmt"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verif/harness/kit"
)

// Field is one field of a cron text.
type Field struct {
	Kind int  `json:"k,omitempty"` // 0 *, 1 ?, 2 values, 3 lo-hi, 4 lo/step, 5 */step, 6 lo-hi/step
	A    int  `json:"a,omitempty"`
	B    int  `json:"b,omitempty"`
	Step int  `json:"s,omitempty"`
	Name bool `json:"n,omitempty"` // names of months and days
}

// Cron is a cron text and, independently, its meaning.
type Cron struct {
	Fields []Field `json:"f,omitempty"`     // second, minute, hour, day of month, month, day of week (may be missing)
	Every  int     `json:"every,omitempty"` // seconds
	Word   string  `json:"word,omitempty"`  // @hourly etc.
	Text   string  `json:"text,omitempty"`  // literal; invalid, or never matches
}

var lo = []int{0, 0, 0, 1, 1, 0}
var hi = []int{59, 59, 23, 31, 12, 6}
var months = []string{"", "JAN", "FEB", "mar", "APR", "MAY", "jun", "JUL", "AUG", "SEP", "OCT", "nov", "DEC"}
var days = []string{"SUN", "MON", "tue", "WED", "THU", "fri", "SAT"}

// bad holds texts that are no cron texts, never hold those that match no time.
var bad = []string{"", "* * *", "60 * * * * *", "* 60 * * * *", "* * 24 * * *", "* * * 0 * *", "* * * * 13 *", "* * * * * 8", "* * * 32 * *",
	"* * * * * MOO", "@never", "@every", "@every soon", "a b c d e f", "5-1 * * * * *", "-1 * * * * *", "1.5 * * * * *", "* * * * * * * *", "1--2 * * * * *", "1/2/3 * * * * *", "每秒", ";"}
var never = []string{"0 0 0 30 2 *", "0 0 0 30-31 FEB ?", "* * * 31 4,6,9,11 *", "1 2 3 31 FEB-FEB", "*/5 0 0 31 JUN ?", "0 0 12 31 sep,nov ?"}

func (f Field) text(i int) string {
	v := func(n int) string {
		if f.Name && i == 4 {
			return months[n]
		}
		if f.Name && i == 5 {
			return days[n]
		}
		return fmt.Sprint(n)
	}
	switch f.Kind {
	case 1:
		return "?"
	case 2:
		if f.A == f.B {
			return v(f.A)
		}
		return v(f.A) + "," + v(f.B)
	case 3:
		return v(f.A) + "-" + v(f.B)
	case 4:
		return fmt.Sprintf("%s/%d", v(f.A), f.Step)
	case 5:
		return fmt.Sprintf("*/%d", f.Step)
	case 6:
		return fmt.Sprintf("%s-%s/%d", v(f.A), v(f.B), f.Step)
	}
	return "*"
}

func (f Field) has(i, n int) bool {
	switch f.Kind {
	case 2:
		return n == f.A || n == f.B
	case 3:
		return n >= f.A && n <= f.B
	case 4:
		return n >= f.A && (n-f.A)%f.Step == 0
	case 5:
		return (n-lo[i])%f.Step == 0
	case 6:
		return n >= f.A && n <= f.B && (n-f.A)%f.Step == 0
	}
	return true
}

func (c *Cron) text() string {
	switch {
	case c.Every > 0:
		return fmt.Sprintf("@every %s", time.Duration(c.Every)*time.Second)
	case c.Word != "":
		return c.Word
	case len(c.Fields) == 0:
		return c.Text
	}
	var l []string
	for i, f := range c.Fields {
		l = append(l, f.text(i))
	}
	return strings.Join(l, " ")
}

func (c *Cron) valid() bool { return c.Every > 0 || c.Word != "" || len(c.Fields) > 0 }

func at(n int) Field { return Field{Kind: 2, A: n, B: n} }

var words = map[string][]Field{
	"@hourly":   {at(0), at(0), {}, {}, {}, {}},
	"@daily":    {at(0), at(0), at(0), {}, {}, {}},
	"@midnight": {at(0), at(0), at(0), {}, {}, {}},
	"@weekly":   {at(0), at(0), at(0), {}, {}, at(0)},
	"@monthly":  {at(0), at(0), at(0), at(1), {}, {}},
	"@yearly":   {at(0), at(0), at(0), at(1), at(1), {}},
}

// next is the first time after t the cron names.
func (c *Cron) next(t time.Time) time.Time {
	t = t.UTC()
	if c.Every > 0 {
		return t.Truncate(time.Second).Add(time.Duration(c.Every) * time.Second)
	}
	fs := c.Fields
	if c.Word != "" {
		fs = words[c.Word]
	}
	has := func(i, n int) bool { return i >= len(fs) || fs[i].has(i, n) }
	t = t.Truncate(time.Second).Add(time.Second)
	day := time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
	for ; day.Before(t.AddDate(9, 0, 0)); day = day.AddDate(0, 0, 1) {
		if !has(3, day.Day()) || !has(4, int(day.Month())) || !has(5, int(day.Weekday())) {
			continue
		}
		for h := 0; h < 24; h++ {
			if !has(2, h) || day.Add(time.Duration(h+1)*time.Hour).Before(t) {
				continue
			}
			for m := 0; m < 60; m++ {
				if !has(1, m) {
					continue
				}
				min := day.Add(time.Duration(h)*time.Hour + time.Duration(m)*time.Minute)
				if min.Add(time.Minute).Before(t) {
					continue
				}
				for s := 0; s < 60; s++ {
					if x := min.Add(time.Duration(s) * time.Second); has(0, s) && !x.Before(t) {
						return x
					}
				}
			}
		}
	}
	kit.Harness("cron %q has no next time after %v", c.text(), t)
	return t
}

func genField(t *rapid.T, i int) Field {
	f := Field{Kind: kit.Pick(t, []int{0, 2, 2, 3, 4, 5, 6}, "field"), Name: kit.Pct(t, 50, "names")}
	span := hi[i] - lo[i] + 1
	if i == 3 {
		span = 28 // days every month has
	}
	f.A = lo[i] + kit.N(t, span, "a")
	f.B = lo[i] + kit.N(t, span, "b")
	if f.B < f.A {
		f.A, f.B = f.B, f.A
	}
	f.Step = 1 + kit.N(t, max(span/2, 1), "step")
	if f.Kind == 0 {
		return Field{}
	}
	return f
}

// genCron draws a cron; fine ones name times that are seconds apart, coarse ones are
// minutes to months apart.
func genCron(t *rapid.T, fine bool) *Cron {
	switch k := kit.N(t, 20, "cron"); {
	case k == 19:
		return &Cron{Text: kit.Pick(t, bad, "bad")}
	case k == 18:
		return &Cron{Text: kit.Pick(t, never, "never")}
	case k >= 15 && fine:
		return &Cron{Every: 1 + kit.N(t, 20, "every")}
	case k == 17:
		return &Cron{Every: kit.Pick(t, []int{60, 90, 600, 3600, 5400, 86400}, "every")}
	case k >= 15:
		return &Cron{Word: kit.Pick(t, []string{"@hourly", "@daily", "@midnight", "@weekly", "@monthly", "@yearly"}, "word")}
	}
	c := &Cron{Fields: make([]Field, 6)}
	if fine {
		c.Fields[0] = genField(t, 0)
		if kit.Pct(t, 15, "minute") {
			c.Fields[1] = Field{Kind: 5, Step: 1 + kit.N(t, 3, "step")}
		}
	} else {
		// one unit is drawn, smaller ones are fixed, larger ones sometimes drawn too
		u := kit.N(t, 6, "unit")
		for i := 0; i < 6; i++ {
			switch {
			case i < u && i < 3:
				c.Fields[i] = at(lo[i] + kit.N(t, hi[i]-lo[i]+1, "at"))
			case i == u || i > u && kit.Pct(t, 20, "restricted"):
				c.Fields[i] = genField(t, i)
			}
		}
	}
	if c.Fields[3].Kind != 0 { // a day of the month and a day of the week mean either
		c.Fields[5] = Field{}
	}
	for i := 3; i < 6; i += 2 {
		if c.Fields[i].Kind == 0 && kit.Pct(t, 30, "?") {
			c.Fields[i] = Field{Kind: 1}
		}
	}
	if c.Fields[5].Kind < 2 && kit.Pct(t, 20, "short") {
		c.Fields = c.Fields[:5]
	}
	return c
}

H='''
package yarql

import (
	"testing"
	"time"
)

type demoQ struct{}

var demoTime, demoGot time.Time

func (demoQ) ResolveNow() time.Time { return demoTime }
func (demoQ) ResolveF(args struct{ T time.Time }) int {
	demoGot = args.T
	return 1
}

type demoM struct{}

func TestDemo(t *testing.T) {
	s := NewSchema()
	if err := s.Parse(demoQ{}, demoM{}, nil); err != nil {
		t.Fatal(err)
	}
%s
}
'''
SEEDS=[
dict(id="c21-trailing-zeros",property="C21",pkg=".",edits=[("helpers/time.go",'"2006-01-02T15:04:05.000Z"\n','"2006-01-02T15:04:05.999Z"\n')],
 test=H%'''	demoTime = time.Date(2021, 3, 4, 5, 6, 7, 120000000, time.UTC)
	s.Resolve([]byte("{now}"), ResolveOptions{NoMeta: true})
	if string(s.Result) != `{"now":"2021-03-04T05:06:07.120Z"}` {
		t.Fatal(string(s.Result))
	}
''',needs="a time whose milliseconds end in zero",breaks="trailing zeros of the milliseconds are dropped, and such a text is the only one accepted"),
]

package genchk

import (
	"os"
	"path/filepath"
	"pbt"
	"reflect"
	"strings"
)

// Compiles: whatever the schema, the generator's output is Go that compiles.
func Compiles(o Gen) func(*pbt.T) {
	return func(t *pbt.T) {
		s := o.Schema(t)
		for _, l := range s.IDL() {
			t.Note("%s", l)
		}
		dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "g01")
		if err != nil {
			panic("check error: " + err.Error())
		}
		defer os.RemoveAll(dir)
		if err := Run(s, dir); err != nil {
			t.Failf("%v", err)
		}
		if t.Chance(1, 12) {
			again := dir + "-again"
			if err := os.Mkdir(again, 0755); err != nil {
				panic("check error: " + err.Error())
			}
			defer os.RemoveAll(again)
			if err := Run(s, again); err != nil {
				t.Failf("%v", err)
			}
			if a, b := texts(dir), texts(again); !reflect.DeepEqual(a, b) {
				for f := range a {
					if a[f] != b[f] {
						t.Failf("%s is not the same when it is generated again", f)
					}
				}
				t.Failf("the files are not the same when they are generated again")
			}
		}
		c := Check(s, dir, true)
		if c.Err != nil {
			t.Failf("%v  [%s]", c.Err, c.Source)
		}
		if c.RemErr != nil {
			t.Failf("command: %v  [%s]", c.RemErr, c.Source)
		}
		n := 0
		for _, p := range s.Programs {
			n += len(p.Decls) + len(p.Services) + len(p.Consts)
		}
		if n > 1 {
			t.NonTrivial()
		}
		t.Key(s.Encode())
	}
}

// texts are the files below dir.
func texts(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			b, _ := os.ReadFile(p)
			m[strings.TrimPrefix(p, dir)] = string(b)
		}
		return nil
	})
	return m
}

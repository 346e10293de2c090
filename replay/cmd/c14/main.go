// Replay of C14: saving and loading compiled parsers.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"

	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	p "github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
	"verif/replay/h"
	"verif/replay/ref"
)

type out struct {
	ok         bool
	end        int
	caps, errs string
}

func run(c *vm.Code, doc []byte) (o out) {
	ok, end, cap, errs := c.Exec(bytes.NewReader(doc), memo.NoneTable{})
	o = out{ok: ok, errs: fmt.Sprintf("%q", errs)}
	if ok {
		o.end, o.caps = end, ref.CapsString(ref.Kids(cap))
	}
	return o
}

// content reads the saved JSON form with absent lists made empty.
func content(c *vm.Code) (string, error) {
	b, err := c.ToJson()
	if err != nil {
		return "", err
	}
	var m map[string]json.RawMessage
	if err := json.Unmarshal(b, &m); err != nil {
		return "", err
	}
	for k, v := range m {
		if string(v) == "null" {
			m[k] = json.RawMessage("[]")
		}
	}
	b, err = json.Marshal(m)
	return string(b), err
}

func safely(f func() error) (err error, panicked interface{}) {
	defer func() { panicked = recover() }()
	return f(), nil
}

func main() {
	h.Main("C14", func(t *h.T) {
		t.Known("json-invalid-utf8", "the JSON form replaces bytes of an error message that are not valid UTF-8 (message \\xff)", "error message \\xff", func() error {
			code := vm.Encode(p.MustCompile(p.Error("\xff", nil)))
			b, err := code.ToJson()
			if err != nil {
				return nil
			}
			c, err := vm.FromJson(b)
			if err != nil {
				return nil
			}
			if a, b := run(&code, nil), run(&c, nil); a != b {
				return fmt.Errorf("original %+v, loaded %+v", a, b)
			}
			return nil
		})
		g := &ref.Gen{R: t.Rand, O: ref.GenOpts{Caps: true, Memo: true, Errors: true, EmptyOps: true, Grammars: true, Alphabet: "abc", MaxDepth: 5}}
		t.For("parsers", 1, 400, func() {
			if g.MemoIds() > 25000 {
				t.Respawn()
				return
			}
			g.O.Alphabet = []string{"abc", "ab \n_<>&\"", "abcdefghijklmnop"}[t.Rand.Intn(3)]
			var pr isa.Program
			var desc string
			var docs [][]byte
			words := t.Rand.Intn(3) == 0
			if t.Rand.Intn(3) == 0 {
				var how string
				pr, how, _ = g.Program()
				desc = how + ": " + ref.ProgString(pr)
				for i := 0; i < 5; i++ {
					docs = append(docs, g.SampleProg(pr, 40))
				}
				var q isa.Program
				for i := 0; i < t.Rand.Intn(300); i++ {
					q = append(q, isa.TestSetNoChoice{Chars: charset.New([]byte{byte(t.Rand.Intn(256)), byte(t.Rand.Intn(256))}), Lbl: isa.NewLabel()})
				}
				if how == "mutated" {
					return
				}
				_ = q
			} else {
				n := g.Fresh()
				desc = n.String()
				c, err := p.Compile(n.Build())
				if err != nil {
					return
				}
				pr = c
				docs = g.Docs(n, 5)
				for i := 0; i < len(docs); i++ {
					if _, skip := ref.Match(n, docs[i], 20000); skip {
						docs = append(docs[:i], docs[i+1:]...)
						i--
					}
				}
			}
			var w []string
			body := pr
			if words {
				for i, k := 0, t.Rand.Intn(6); i < k; i++ {
					w = append(w, string(t.Bytes(t.Rand.Intn(4), "abc")))
				}
				pr = append(append(isa.Program{}, pr...), isa.CheckBegin{Id: 1, Flag: 2}, isa.Any{N: uint8(t.Rand.Intn(3))}, isa.CheckEnd{Checker: isa.NewMapChecker(w)})
			}
			if len(pr) > 20000 || ref.NumSets(pr) > 250 {
				return
			}
			t.Case(map[string]interface{}{"parser": desc, "words": w, "has_words": words}, func() error {
				code := vm.Encode(pr)
				same := func(how string, c *vm.Code) error {
					if c.Size() != code.Size() {
						return fmt.Errorf("%s form: %d bytes of code, saved %d", how, c.Size(), code.Size())
					}
					a, err1 := content(&code)
					b, err2 := content(c)
					if err1 != nil || err2 != nil || a != b {
						return fmt.Errorf("%s form: content %s (%v), saved %s (%v)", how, b, err2, a, err1)
					}
					for _, doc := range docs {
						if _, err := ref.RunProgram(body, doc, nil, 20000); err != nil {
							continue
						}
						if a, b := run(&code, doc), run(c, doc); a != b {
							return fmt.Errorf("%s form, document %q: original %+v, loaded %+v", how, doc, a, b)
						}
					}
					return nil
				}
				b, err := code.ToBytes()
				if err != nil {
					return fmt.Errorf("ToBytes: %v", err)
				}
				c, err := vm.FromBytes(b)
				if err != nil {
					return fmt.Errorf("FromBytes: %v", err)
				}
				if err := same("binary", &c); err != nil {
					return err
				}
				bad := func(how string, b []byte) error {
					err, pan := safely(func() error { _, err := vm.FromBytes(b); return err })
					if pan != nil {
						return fmt.Errorf("FromBytes of %s data panics: %v", how, pan)
					}
					if err == nil {
						return fmt.Errorf("FromBytes of %s data reports no error", how)
					}
					return nil
				}
				for i := 0; i < 4; i++ {
					k := t.Rand.Intn(len(b))
					if err := bad(fmt.Sprintf("truncated (%d of %d bytes)", k, len(b)), b[:k]); err != nil {
						return err
					}
				}
				for i := 0; i < 4; i++ {
					// the header fields of gzip carry no content; the rest is
					// covered by its checksum
					k := 10 + t.Rand.Intn(len(b)-10)
					x := append([]byte{}, b...)
					x[k] ^= byte(1 + t.Rand.Intn(255))
					c, err := vm.FromBytes(x)
					if err == nil {
						if e := same("", &c); e != nil {
							return fmt.Errorf("FromBytes of corrupted data (byte %d of %d is %d instead of %d) reports no error, and %v", k, len(b), x[k], b[k], e)
						}
					}
				}
				for i := 0; i < 2; i++ {
					if err := bad("random", t.Bytes(t.Rand.Intn(60), "")); err != nil {
						return err
					}
				}
				if words {
					// the JSON form of a parser with checkers may be refused, but a
					// parser that is loaded is the one saved
					if j, err := code.ToJson(); err == nil {
						if c, err := vm.FromJson(j); err == nil {
							for _, doc := range docs {
								if _, err := ref.RunProgram(body, doc, nil, 20000); err != nil {
									continue
								}
								var a, b out
								_, pan := safely(func() error { a, b = run(&code, doc), run(&c, doc); return nil })
								if pan != nil || a != b {
									return fmt.Errorf("JSON form with a checker, document %q: original %+v, loaded %+v (%v)", doc, a, b, pan)
								}
							}
						}
					}
					return nil
				}
				j, err := code.ToJson()
				if err != nil {
					return fmt.Errorf("ToJson: %v", err)
				}
				c, err = vm.FromJson(j)
				if err != nil {
					return fmt.Errorf("FromJson: %v", err)
				}
				if err := same("JSON", &c); err != nil {
					return err
				}
				for i := 0; i < 3; i++ {
					k := t.Rand.Intn(len(j))
					err, pan := safely(func() error { _, err := vm.FromJson(j[:k]); return err })
					if err == nil || pan != nil {
						return fmt.Errorf("FromJson of truncated data (%d of %d bytes) reports no error (%v)", k, len(j), pan)
					}
				}
				for _, s := range []string{"x", "{", "{}", "null", "[1]", "{garbage", string(j)} {
					if _, err := vm.FromJson(append(append([]byte{}, j...), s...)); err == nil {
						return fmt.Errorf("FromJson of data followed by %q reports no error", s)
					}
				}
				for _, s := range []string{"", "[]", "{", "{\"Insns\": 3}", "{\"Sets\": \"x\"}", "nonsense", "{\"Errors\": [1]}", "{\"Insns\": \"*\"}"} {
					if _, err := vm.FromJson([]byte(s)); err == nil {
						return fmt.Errorf("FromJson of %q reports no error", s)
					}
				}
				return nil
			})
		})
	})
}
